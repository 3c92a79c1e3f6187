INIT WInit
NEXT WNext
INVARIANTS Meaning
CHECK_DEADLOCK FALSE
CONSTANTS
  PrimeP <- TPrime
  OrderN <- TOrder
  HalfN <- THalf
  MulP <- TMulP
  SqrP <- TSqrP
  AddP <- TAddP
  SubP <- TSubP
  ScaleP <- TScaleP
  InvP <- TInvP
  MulN <- TMulN
  AddN <- TAddN
  InvN <- TInvN
  CanonP <- TCanonP
  CanonN <- TCanonN
  SqrtP <- TSqrtP
  LowR <- TLowR
  G <- TG
  JMulG <- TJMulG
  PubPoint <- TPub
  Nonce6979 <- TNonce
  Bip32Hash <- TBip32
  MasterKey <- WMaster
  MsgHash <- WMsgHash
  Hash160 <- WHash160
  Hash256 <- WHash256
  Fpr <- WFpr
