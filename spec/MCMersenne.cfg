CONSTANTS TopLL = 130
 TopSmall = 15
SPECIFICATION Spec
INVARIANTS LLOK CompositeOK SmallOK ArithOK
