CONSTANTS Width = 3
 MaxObj = 2
SPECIFICATION Spec
INVARIANT OnceEach
