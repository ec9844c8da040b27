CONSTANTS TopLL = 620
 TopSmall = 17
SPECIFICATION Spec
INVARIANTS LLOK CompositeOK SmallOK ArithOK
