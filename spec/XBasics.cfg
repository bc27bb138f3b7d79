SPECIFICATION Spec
CONSTANTS Alphabet = {32, 9, 44, 49, 46}  MaxLine = 4  MaxList = 4  Side = 1
CHECK_DEADLOCK FALSE
