# written by mkclaims.py
CLAIMED = {
 "B01": (
  "proof",
  "Every obligation generated from the current source of the functions under contract is discharged by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. "
 ),
 "P01": (
  "proof",
  "Every obligation generated from the current source of the functions under contract is discharged by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. "
 ),
 "P02": (
  "proof",
  "Every obligation generated from the current source of the functions under contract is discharged by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. "
 ),
 "P03": (
  "proof",
  "Every obligation generated from the current source of the functions under contract is discharged by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. "
 ),
 "P04": (
  "proof",
  "Every obligation generated from the current source of the functions under contract is discharged by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. "
 ),
 "P05": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 18 clauses are proved; 2 are bounded: evaluated on random states of the running code only, not proved (reBuyOver)."
 ),
 "P06": (
  "proof",
  "Every obligation generated from the current source of the functions under contract is discharged by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. "
 ),
 "P07": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 38 clauses are proved; 6 are bounded: evaluated on random states of the running code only, not proved (settleCompetitionTable; updatePlayerCompetitionTableRecords)."
 ),
 "P08": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 11 clauses are proved; 20 are bounded: evaluated on random states of the running code only, not proved (GetSortedTableSettlementKnockoutPlayerRankings; handleReBuy; handleTableKnockoutPlayers; reBuyOver; settleCompetitionTable)."
 ),
 "P09": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 3 clauses are proved; 15 are bounded: evaluated on random states of the running code only, not proved (GetSortedStopBuyInKnockoutPlayerRankings; levelUp)."
 ),
 "P10": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 3 clauses are proved; 5 are bounded: evaluated on random states of the running code only, not proved (refreshPlayerCompetitionRanks)."
 ),
 "P11": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 4 clauses are proved; 3 are bounded: evaluated on random states of the running code only, not proved (levelUp; reBuyOver; settleCompetitionTable)."
 ),
 "P12": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 19 clauses are proved; 19 are bounded: evaluated on random states of the running code only, not proved (CloseCompetition; GetParticipatedPlayerCompetitionRankingData; handleMTTTableSettlement; settleCompetitionTable; updatePlayerFinalRankings)."
 ),
 "P13": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 3 clauses are proved; 4 are bounded: evaluated on random states of the running code only, not proved (UpdateTable; settleCompetitionTable)."
 ),
 "P14": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 5 clauses are proved; 3 are bounded: evaluated on random states of the running code only, not proved (GetParticipatedPlayerTableRankingData)."
 ),
 "P15": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 27 clauses are proved; 9 are bounded: evaluated on random states of the running code only, not proved (UpdateTable; handleCompetitionTableCreated)."
 ),
 "P16": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 3 clauses are proved; 2 are bounded: evaluated on random states of the running code only, not proved (levelUp; regulatorCreateAndDistributePlayers)."
 ),
 "P17": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 15 clauses are proved; 6 are bounded: evaluated on random states of the running code only, not proved (breakOver; levelUp)."
 ),
 "P18": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 10 clauses are proved; 28 are bounded: evaluated on random states of the running code only, not proved (handleMTTTableSettlement; handleMTTTableSettlementNextStep; regulatorCreateAndDistributePlayers)."
 ),
 "P19": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 8 clauses are proved; 1 are bounded: evaluated on random states of the running code only, not proved (AutoGameOpenEnd)."
 ),
 "P20": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 66 clauses are proved; 7 are bounded: evaluated on random states of the running code only, not proved (CreateCompetition; Reset)."
 ),
 "P21": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 47 clauses are proved; 3 are bounded: evaluated on random states of the running code only, not proved (readyReported; seatReported; tableReported)."
 ),
 "P22": (
  "proof",
  "Every obligation generated from the current source of the functions under contract is discharged by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. "
 ),
 "P23": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 8 clauses are proved; 14 are bounded: evaluated on random states of the running code only, not proved (CreateCompetition; registrationOver)."
 ),
 "P24": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 5 clauses are proved; 9 are bounded: evaluated on random states of the running code only, not proved (handleMTTTableSettlement; levelUp)."
 ),
 "P25": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 18 clauses are proved; 7 are bounded: evaluated on random states of the running code only, not proved (UpdateTable; handleCompetitionTableCreated; levelUp; reBuyOver; regulatorCreateAndDistributePlayers; settleCompetitionTable)."
 ),
 "P26": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 10 clauses are proved; 10 are bounded: evaluated on random states of the running code only, not proved (UpdateTable; closeCompetitionTable)."
 ),
 "P27": (
  "other",
  "Every obligation generated from the current source of the functions under contract is discharged, except for the bounded clauses, by an SMT solver for all inputs. Assumes: backend, balancer and listeners do not call back synchronously; sort, time, json and timer models; integers do not overflow. 8 clauses are proved; 2 are bounded: evaluated on random states of the running code only, not proved (UpdateTable; breakOver)."
 )
}
OPEN_REASON = {}
