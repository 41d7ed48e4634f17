SPECIFICATION CSpec
CONSTANT TrStart <- TS
CONSTANT TrStep <- TSt
