SPECIFICATION Spec
CONSTANTS MaxAcc = 6
 MaxRej = 3
