SPECIFICATION CSpec
CONSTANT TrStart <- US
CONSTANT TrStep <- UN
