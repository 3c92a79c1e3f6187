------------------------------ MODULE ErrNames -----------------------------
(***************************************************************************)
(* Names of the system errors 1.. (glibc, C locale), tools/errnames.py.     *)
(***************************************************************************)
ErrNames == <<
  <<79,112,101,114,97,116,105,111,110,32,110,111,116,32,112,101,114,109,105,116,116,101,100>>,
  <<78,111,32,115,117,99,104,32,102,105,108,101,32,111,114,32,100,105,114,101,99,116,111,114,121>>,
  <<78,111,32,115,117,99,104,32,112,114,111,99,101,115,115>>,
  <<73,110,116,101,114,114,117,112,116,101,100,32,115,121,115,116,101,109,32,99,97,108,108>>,
  <<73,110,112,117,116,47,111,117,116,112,117,116,32,101,114,114,111,114>>,
  <<78,111,32,115,117,99,104,32,100,101,118,105,99,101,32,111,114,32,97,100,100,114,101,115,115>>,
  <<65,114,103,117,109,101,110,116,32,108,105,115,116,32,116,111,111,32,108,111,110,103>>,
  <<69,120,101,99,32,102,111,114,109,97,116,32,101,114,114,111,114>>,
  <<66,97,100,32,102,105,108,101,32,100,101,115,99,114,105,112,116,111,114>>,
  <<78,111,32,99,104,105,108,100,32,112,114,111,99,101,115,115,101,115>>,
  <<82,101,115,111,117,114,99,101,32,116,101,109,112,111,114,97,114,105,108,121,32,117,110,97,118,97,105,108,97,98,108,101>>,
  <<67,97,110,110,111,116,32,97,108,108,111,99,97,116,101,32,109,101,109,111,114,121>>,
  <<80,101,114,109,105,115,115,105,111,110,32,100,101,110,105,101,100>>,
  <<66,97,100,32,97,100,100,114,101,115,115>>,
  <<66,108,111,99,107,32,100,101,118,105,99,101,32,114,101,113,117,105,114,101,100>>,
  <<68,101,118,105,99,101,32,111,114,32,114,101,115,111,117,114,99,101,32,98,117,115,121>>,
  <<70,105,108,101,32,101,120,105,115,116,115>>,
  <<73,110,118,97,108,105,100,32,99,114,111,115,115,45,100,101,118,105,99,101,32,108,105,110,107>>,
  <<78,111,32,115,117,99,104,32,100,101,118,105,99,101>>,
  <<78,111,116,32,97,32,100,105,114,101,99,116,111,114,121>>,
  <<73,115,32,97,32,100,105,114,101,99,116,111,114,121>>,
  <<73,110,118,97,108,105,100,32,97,114,103,117,109,101,110,116>>,
  <<84,111,111,32,109,97,110,121,32,111,112,101,110,32,102,105,108,101,115,32,105,110,32,115,121,115,116,101,109>>,
  <<84,111,111,32,109,97,110,121,32,111,112,101,110,32,102,105,108,101,115>>,
  <<73,110,97,112,112,114,111,112,114,105,97,116,101,32,105,111,99,116,108,32,102,111,114,32,100,101,118,105,99,101>>,
  <<84,101,120,116,32,102,105,108,101,32,98,117,115,121>>,
  <<70,105,108,101,32,116,111,111,32,108,97,114,103,101>>,
  <<78,111,32,115,112,97,99,101,32,108,101,102,116,32,111,110,32,100,101,118,105,99,101>>,
  <<73,108,108,101,103,97,108,32,115,101,101,107>>,
  <<82,101,97,100,45,111,110,108,121,32,102,105,108,101,32,115,121,115,116,101,109>>,
  <<84,111,111,32,109,97,110,121,32,108,105,110,107,115>>,
  <<66,114,111,107,101,110,32,112,105,112,101>>,
  <<78,117,109,101,114,105,99,97,108,32,97,114,103,117,109,101,110,116,32,111,117,116,32,111,102,32,100,111,109,97,105,110>>,
  <<78,117,109,101,114,105,99,97,108,32,114,101,115,117,108,116,32,111,117,116,32,111,102,32,114,97,110,103,101>>,
  <<82,101,115,111,117,114,99,101,32,100,101,97,100,108,111,99,107,32,97,118,111,105,100,101,100>>,
  <<70,105,108,101,32,110,97,109,101,32,116,111,111,32,108,111,110,103>>,
  <<78,111,32,108,111,99,107,115,32,97,118,97,105,108,97,98,108,101>>,
  <<70,117,110,99,116,105,111,110,32,110,111,116,32,105,109,112,108,101,109,101,110,116,101,100>>,
  <<68,105,114,101,99,116,111,114,121,32,110,111,116,32,101,109,112,116,121>>,
  <<84,111,111,32,109,97,110,121,32,108,101,118,101,108,115,32,111,102,32,115,121,109,98,111,108,105,99,32,108,105,110,107,115>>,
  <<85,110,107,110,111,119,110,32,101,114,114,111,114,32,52,49>>,
  <<78,111,32,109,101,115,115,97,103,101,32,111,102,32,100,101,115,105,114,101,100,32,116,121,112,101>>,
  <<73,100,101,110,116,105,102,105,101,114,32,114,101,109,111,118,101,100>>,
  <<67,104,97,110,110,101,108,32,110,117,109,98,101,114,32,111,117,116,32,111,102,32,114,97,110,103,101>>,
  <<76,101,118,101,108,32,50,32,110,111,116,32,115,121,110,99,104,114,111,110,105,122,101,100>>,
  <<76,101,118,101,108,32,51,32,104,97,108,116,101,100>>,
  <<76,101,118,101,108,32,51,32,114,101,115,101,116>>,
  <<76,105,110,107,32,110,117,109,98,101,114,32,111,117,116,32,111,102,32,114,97,110,103,101>>,
  <<80,114,111,116,111,99,111,108,32,100,114,105,118,101,114,32,110,111,116,32,97,116,116,97,99,104,101,100>>,
  <<78,111,32,67,83,73,32,115,116,114,117,99,116,117,114,101,32,97,118,97,105,108,97,98,108,101>>,
  <<76,101,118,101,108,32,50,32,104,97,108,116,101,100>>,
  <<73,110,118,97,108,105,100,32,101,120,99,104,97,110,103,101>>,
  <<73,110,118,97,108,105,100,32,114,101,113,117,101,115,116,32,100,101,115,99,114,105,112,116,111,114>>,
  <<69,120,99,104,97,110,103,101,32,102,117,108,108>>,
  <<78,111,32,97,110,111,100,101>>,
  <<73,110,118,97,108,105,100,32,114,101,113,117,101,115,116,32,99,111,100,101>>,
  <<73,110,118,97,108,105,100,32,115,108,111,116>>,
  <<85,110,107,110,111,119,110,32,101,114,114,111,114,32,53,56>>,
  <<66,97,100,32,102,111,110,116,32,102,105,108,101,32,102,111,114,109,97,116>>,
  <<68,101,118,105,99,101,32,110,111,116,32,97,32,115,116,114,101,97,109>>,
  <<78,111,32,100,97,116,97,32,97,118,97,105,108,97,98,108,101>>,
  <<84,105,109,101,114,32,101,120,112,105,114,101,100>>,
  <<79,117,116,32,111,102,32,115,116,114,101,97,109,115,32,114,101,115,111,117,114,99,101,115>>,
  <<77,97,99,104,105,110,101,32,105,115,32,110,111,116,32,111,110,32,116,104,101,32,110,101,116,119,111,114,107>>,
  <<80,97,99,107,97,103,101,32,110,111,116,32,105,110,115,116,97,108,108,101,100>>,
  <<79,98,106,101,99,116,32,105,115,32,114,101,109,111,116,101>>,
  <<76,105,110,107,32,104,97,115,32,98,101,101,110,32,115,101,118,101,114,101,100>>,
  <<65,100,118,101,114,116,105,115,101,32,101,114,114,111,114>>,
  <<83,114,109,111,117,110,116,32,101,114,114,111,114>>,
  <<67,111,109,109,117,110,105,99,97,116,105,111,110,32,101,114,114,111,114,32,111,110,32,115,101,110,100>>,
  <<80,114,111,116,111,99,111,108,32,101,114,114,111,114>>,
  <<77,117,108,116,105,104,111,112,32,97,116,116,101,109,112,116,101,100>>,
  <<82,70,83,32,115,112,101,99,105,102,105,99,32,101,114,114,111,114>>,
  <<66,97,100,32,109,101,115,115,97,103,101>>,
  <<86,97,108,117,101,32,116,111,111,32,108,97,114,103,101,32,102,111,114,32,100,101,102,105,110,101,100,32,100,97,116,97,32,116,121,112,101>>,
  <<78,97,109,101,32,110,111,116,32,117,110,105,113,117,101,32,111,110,32,110,101,116,119,111,114,107>>,
  <<70,105,108,101,32,100,101,115,99,114,105,112,116,111,114,32,105,110,32,98,97,100,32,115,116,97,116,101>>,
  <<82,101,109,111,116,101,32,97,100,100,114,101,115,115,32,99,104,97,110,103,101,100>>,
  <<67,97,110,32,110,111,116,32,97,99,99,101,115,115,32,97,32,110,101,101,100,101,100,32,115,104,97,114,101,100,32,108,105,98,114,97,114,121>>,
  <<65,99,99,101,115,115,105,110,103,32,97,32,99,111,114,114,117,112,116,101,100,32,115,104,97,114,101,100,32,108,105,98,114,97,114,121>>,
  <<46,108,105,98,32,115,101,99,116,105,111,110,32,105,110,32,97,46,111,117,116,32,99,111,114,114,117,112,116,101,100>>,
  <<65,116,116,101,109,112,116,105,110,103,32,116,111,32,108,105,110,107,32,105,110,32,116,111,111,32,109,97,110,121,32,115,104,97,114,101,100,32,108,105,98,114,97,114,105,101,115>>,
  <<67,97,110,110,111,116,32,101,120,101,99,32,97,32,115,104,97,114,101,100,32,108,105,98,114,97,114,121,32,100,105,114,101,99,116,108,121>>,
  <<73,110,118,97,108,105,100,32,111,114,32,105,110,99,111,109,112,108,101,116,101,32,109,117,108,116,105,98,121,116,101,32,111,114,32,119,105,100,101,32,99,104,97,114,97,99,116,101,114>>,
  <<73,110,116,101,114,114,117,112,116,101,100,32,115,121,115,116,101,109,32,99,97,108,108,32,115,104,111,117,108,100,32,98,101,32,114,101,115,116,97,114,116,101,100>>,
  <<83,116,114,101,97,109,115,32,112,105,112,101,32,101,114,114,111,114>>,
  <<84,111,111,32,109,97,110,121,32,117,115,101,114,115>>,
  <<83,111,99,107,101,116,32,111,112,101,114,97,116,105,111,110,32,111,110,32,110,111,110,45,115,111,99,107,101,116>>,
  <<68,101,115,116,105,110,97,116,105,111,110,32,97,100,100,114,101,115,115,32,114,101,113,117,105,114,101,100>>,
  <<77,101,115,115,97,103,101,32,116,111,111,32,108,111,110,103>>,
  <<80,114,111,116,111,99,111,108,32,119,114,111,110,103,32,116,121,112,101,32,102,111,114,32,115,111,99,107,101,116>>,
  <<80,114,111,116,111,99,111,108,32,110,111,116,32,97,118,97,105,108,97,98,108,101>>,
  <<80,114,111,116,111,99,111,108,32,110,111,116,32,115,117,112,112,111,114,116,101,100>>,
  <<83,111,99,107,101,116,32,116,121,112,101,32,110,111,116,32,115,117,112,112,111,114,116,101,100>>,
  <<79,112,101,114,97,116,105,111,110,32,110,111,116,32,115,117,112,112,111,114,116,101,100>>,
  <<80,114,111,116,111,99,111,108,32,102,97,109,105,108,121,32,110,111,116,32,115,117,112,112,111,114,116,101,100>>,
  <<65,100,100,114,101,115,115,32,102,97,109,105,108,121,32,110,111,116,32,115,117,112,112,111,114,116,101,100,32,98,121,32,112,114,111,116,111,99,111,108>>,
  <<65,100,100,114,101,115,115,32,97,108,114,101,97,100,121,32,105,110,32,117,115,101>>,
  <<67,97,110,110,111,116,32,97,115,115,105,103,110,32,114,101,113,117,101,115,116,101,100,32,97,100,100,114,101,115,115>>,
  <<78,101,116,119,111,114,107,32,105,115,32,100,111,119,110>>,
  <<78,101,116,119,111,114,107,32,105,115,32,117,110,114,101,97,99,104,97,98,108,101>>,
  <<78,101,116,119,111,114,107,32,100,114,111,112,112,101,100,32,99,111,110,110,101,99,116,105,111,110,32,111,110,32,114,101,115,101,116>>,
  <<83,111,102,116,119,97,114,101,32,99,97,117,115,101,100,32,99,111,110,110,101,99,116,105,111,110,32,97,98,111,114,116>>,
  <<67,111,110,110,101,99,116,105,111,110,32,114,101,115,101,116,32,98,121,32,112,101,101,114>>,
  <<78,111,32,98,117,102,102,101,114,32,115,112,97,99,101,32,97,118,97,105,108,97,98,108,101>>,
  <<84,114,97,110,115,112,111,114,116,32,101,110,100,112,111,105,110,116,32,105,115,32,97,108,114,101,97,100,121,32,99,111,110,110,101,99,116,101,100>>,
  <<84,114,97,110,115,112,111,114,116,32,101,110,100,112,111,105,110,116,32,105,115,32,110,111,116,32,99,111,110,110,101,99,116,101,100>>,
  <<67,97,110,110,111,116,32,115,101,110,100,32,97,102,116,101,114,32,116,114,97,110,115,112,111,114,116,32,101,110,100,112,111,105,110,116,32,115,104,117,116,100,111,119,110>>,
  <<84,111,111,32,109,97,110,121,32,114,101,102,101,114,101,110,99,101,115,58,32,99,97,110,110,111,116,32,115,112,108,105,99,101>>,
  <<67,111,110,110,101,99,116,105,111,110,32,116,105,109,101,100,32,111,117,116>>,
  <<67,111,110,110,101,99,116,105,111,110,32,114,101,102,117,115,101,100>>,
  <<72,111,115,116,32,105,115,32,100,111,119,110>>,
  <<78,111,32,114,111,117,116,101,32,116,111,32,104,111,115,116>>,
  <<79,112,101,114,97,116,105,111,110,32,97,108,114,101,97,100,121,32,105,110,32,112,114,111,103,114,101,115,115>>,
  <<79,112,101,114,97,116,105,111,110,32,110,111,119,32,105,110,32,112,114,111,103,114,101,115,115>>,
  <<83,116,97,108,101,32,102,105,108,101,32,104,97,110,100,108,101>>,
  <<83,116,114,117,99,116,117,114,101,32,110,101,101,100,115,32,99,108,101,97,110,105,110,103>>,
  <<78,111,116,32,97,32,88,69,78,73,88,32,110,97,109,101,100,32,116,121,112,101,32,102,105,108,101>>,
  <<78,111,32,88,69,78,73,88,32,115,101,109,97,112,104,111,114,101,115,32,97,118,97,105,108,97,98,108,101>>,
  <<73,115,32,97,32,110,97,109,101,100,32,116,121,112,101,32,102,105,108,101>>,
  <<82,101,109,111,116,101,32,73,47,79,32,101,114,114,111,114>>,
  <<68,105,115,107,32,113,117,111,116,97,32,101,120,99,101,101,100,101,100>>,
  <<78,111,32,109,101,100,105,117,109,32,102,111,117,110,100>>,
  <<87,114,111,110,103,32,109,101,100,105,117,109,32,116,121,112,101>>,
  <<79,112,101,114,97,116,105,111,110,32,99,97,110,99,101,108,101,100>>,
  <<82,101,113,117,105,114,101,100,32,107,101,121,32,110,111,116,32,97,118,97,105,108,97,98,108,101>>,
  <<75,101,121,32,104,97,115,32,101,120,112,105,114,101,100>>,
  <<75,101,121,32,104,97,115,32,98,101,101,110,32,114,101,118,111,107,101,100>>,
  <<75,101,121,32,119,97,115,32,114,101,106,101,99,116,101,100,32,98,121,32,115,101,114,118,105,99,101>>,
  <<79,119,110,101,114,32,100,105,101,100>>,
  <<83,116,97,116,101,32,110,111,116,32,114,101,99,111,118,101,114,97,98,108,101>>,
  <<79,112,101,114,97,116,105,111,110,32,110,111,116,32,112,111,115,115,105,98,108,101,32,100,117,101,32,116,111,32,82,70,45,107,105,108,108>>,
  <<77,101,109,111,114,121,32,112,97,103,101,32,104,97,115,32,104,97,114,100,119,97,114,101,32,101,114,114,111,114>>>>
=============================================================================
