SPECIFICATION CSpec
CONSTANT TrStart <- GS
CONSTANT TrStep <- GN
