SPECIFICATION Spec
CONSTANTS Alphabet = {32, 9, 44, 49, 46}  MaxLine = 6  MaxList = 6  Side = 3
CHECK_DEADLOCK FALSE
