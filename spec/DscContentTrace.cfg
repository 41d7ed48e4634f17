SPECIFICATION CSpec
CONSTANT TrStart <- DS
CONSTANT TrStep <- DN
