CONSTANTS
  NetName = "relay"
  MaxMsg = 2
  Drops = TRUE
  MaxCtl = 2
SPECIFICATION Spec
INVARIANTS TypeOK OutputsCopy InputsInOrder FairShare OrderlyEnd OutsOpen OneMore InHand FailCloses FailNeedsT FinishOnly ExitLast NoStuck
CHECK_DEADLOCK FALSE
