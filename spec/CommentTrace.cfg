SPECIFICATION CSpec
CONSTANT TrStart <- HS
CONSTANT TrStep <- HN
