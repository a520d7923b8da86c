SPECIFICATION Spec
CONSTANTS
  Dense = {1}
  Mac = {2}
  Vals = {0, 2}
  Mins <- MCMins
  Ress <- MCRess
  Pads = {0}
INVARIANTS Shape FaceSharing
PROPERTY OneField
CONSTRAINT Few
CHECK_DEADLOCK FALSE
