SPECIFICATION CSpec
CONSTANT TrStart <- FS
CONSTANT TrStep <- FN
