SPECIFICATION CSpec
CONSTANT TrStart <- IS
CONSTANT TrStep <- IN0
