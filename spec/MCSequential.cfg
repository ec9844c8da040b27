CONSTANTS Width = 2
 MaxObj = 2
SPECIFICATION Spec
INVARIANT OnceEach
