SPECIFICATION Spec
CONSTANTS MaxAcc = 4
 MaxRej = 2
