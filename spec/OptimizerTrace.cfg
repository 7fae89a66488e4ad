SPECIFICATION TSpec
CONSTANT Unit = 1000000
