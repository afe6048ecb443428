package pokercompetition

## ---- the settlement of one hand
def distinctTable(t) := forall(k, 0, len(t.State.PlayerStates), forall(l, 0, len(t.State.PlayerStates), k != l ==> t.State.PlayerStates[k].PlayerID != t.State.PlayerStates[l].PlayerID))
def RP(t, a) := t.State.GameState.Result.Players[a]
## a settled table: the hand's result names each participant at most once, and participants are players of the table
def wfHand(t) := wfTab(t) && distinctTable(t) && inGame(t.State.PlayerStates, t.State.GamePlayerIndexes)
   && t.State.GameState != nil && t.State.GameState.Result != nil && len(t.State.GameState.Players) >= len(t.State.GamePlayerIndexes)
   && forall(a, 0, len(t.State.GameState.Players), t.State.GameState.Players[a] != nil && t.State.GameState.Players[a].Combination != nil)
   && forall(a, 0, len(t.State.GameState.Result.Players), RP(t,a) != nil && 0 <= RP(t,a).Idx && RP(t,a).Idx < len(t.State.GamePlayerIndexes))
   && forall(a, 0, len(t.State.GameState.Result.Players), forall(b, 0, len(t.State.GameState.Result.Players), a != b ==> RP(t,a).Idx != RP(t,b).Idx))
def took(t, k, p) := t.State.PlayerStates[k].IsParticipated && t.State.PlayerStates[k].PlayerID == p.PlayerID
def tookAny(t, n, p) := exists(k, 0, n, took(t, k, p))
def winnerPS(t, a) := t.State.PlayerStates[t.State.GamePlayerIndexes[RP(t,a).Idx]]
def won(t, a, p) := RP(t,a).Changed > 0 && winnerPS(t, a).PlayerID == p.PlayerID
def wonAny(t, n, p) := exists(a, 0, n, won(t, a, p))
def handOf(t, a) := t.State.GameState.Players[RP(t,a).Idx].Combination

func (*competitionEngine).updatePlayerCompetitionTableRecords (ce, table) ()
props P07
nocand frame dn: bound+1:
modular
requires wf(ce) && wfHand(table)
ensures "chips are the table's": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), table.State.PlayerStates[k].PlayerID == P(ce,i).PlayerID ==> P(ce,i).Chips == table.State.PlayerStates[k].Bankroll))
ensures "rank at the table": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), table.State.PlayerStates[k].PlayerID == P(ce,i).PlayerID ==> P(ce,i).Rank == P(ce,i).TableRank && (!exists(g, 0, len(table.State.GamePlayerIndexes), table.State.GamePlayerIndexes[g] == k) ==> P(ce,i).TableRank == 0)))
ensures "participants are ranked 1..n": forall(i, 0, nP(ce), forall(g, 0, len(table.State.GamePlayerIndexes), table.State.PlayerStates[table.State.GamePlayerIndexes[g]].PlayerID == P(ce,i).PlayerID ==> 1 <= P(ce,i).TableRank && P(ce,i).TableRank <= len(table.State.GamePlayerIndexes)))
ensures [P07 bounded] "more chips, better rank": allKnown(ce, table.State.PlayerStates, table.State.GamePlayerIndexes) ==> forall(i, 0, nP(ce), forall(j, 0, nP(ce), P(ce,i).Chips > P(ce,j).Chips && exists(g, 0, len(table.State.GamePlayerIndexes), table.State.PlayerStates[table.State.GamePlayerIndexes[g]].PlayerID == P(ce,i).PlayerID) && exists(g, 0, len(table.State.GamePlayerIndexes), table.State.PlayerStates[table.State.GamePlayerIndexes[g]].PlayerID == P(ce,j).PlayerID) ==> P(ce,i).TableRank < P(ce,j).TableRank))
ensures [P07 bounded] "a walk is counted": forall(i, 0, nP(ce), forall(a, 0, len(table.State.GameState.Result.Players), won(table, a, P(ce,i)) ==> P(ce,i).TotalWalkTimes == old(P(ce,i).TotalWalkTimes) + ite(table.State.CurrentBBSeat == winnerPS(table,a).Seat && winnerPS(table,a).GameStatistics.ActionTimes == 0 && count(k, 0, len(table.State.PlayerStates), table.State.PlayerStates[k].IsParticipated && hasPlayer(ce, table.State.PlayerStates[k].PlayerID) && table.State.PlayerStates[k].GameStatistics.IsFold && table.State.PlayerStates[k].GameStatistics.FoldRound == pokertable.GameRound_Preflop) == len(table.State.GamePlayerIndexes) - 1, 1, 0)))
ensures [P07 bounded] "players of other tables are untouched": forall(i, 0, nP(ce), !exists(k, 0, len(table.State.PlayerStates), table.State.PlayerStates[k].PlayerID == P(ce,i).PlayerID) ==> unchanged(P(ce,i)))
ensures "each update is announced": forall(i, 0, nP(ce), exists(k, 0, len(table.State.PlayerStates), table.State.PlayerStates[k].PlayerID == P(ce,i).PlayerID) ==> exists(q, old(nc(EVP)), nc(EVP), callarg(EVP, q, 1) == P(ce,i)))
ensures "membership, state and seat are untouched": sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), P(ce,i).Status == old(P(ce,i).Status) && P(ce,i).CurrentSeat == old(P(ce,i).CurrentSeat) && P(ce,i).CurrentTableID == old(P(ce,i).CurrentTableID) && P(ce,i).ReBuyTimes == old(P(ce,i).ReBuyTimes) && P(ce,i).IsReBuying == old(P(ce,i).IsReBuying))
ensures wf(ce)
modifies CompetitionPlayer.TotalGameCounts, CompetitionPlayer.TotalFoldTimes, CompetitionPlayer.TotalPreflopFoldTimes, CompetitionPlayer.TotalFlopFoldTimes, CompetitionPlayer.TotalTurnFoldTimes, CompetitionPlayer.TotalRiverFoldTimes, CompetitionPlayer.TotalActionTimes, CompetitionPlayer.TotalRaiseTimes, CompetitionPlayer.TotalCallTimes, CompetitionPlayer.TotalCheckTimes, CompetitionPlayer.TotalVPIPChances, CompetitionPlayer.TotalVPIPTimes, CompetitionPlayer.TotalPFRChances, CompetitionPlayer.TotalPFRTimes, CompetitionPlayer.TotalATSChances, CompetitionPlayer.TotalATSTimes, CompetitionPlayer.Total3BChances, CompetitionPlayer.Total3BTimes, CompetitionPlayer.TotalFt3BChances, CompetitionPlayer.TotalFt3BTimes, CompetitionPlayer.TotalCheckRaiseChances, CompetitionPlayer.TotalCheckRaiseTimes, CompetitionPlayer.TotalCBetChances, CompetitionPlayer.TotalCBetTimes, CompetitionPlayer.TotalFtCBChances, CompetitionPlayer.TotalFtCBTimes, CompetitionPlayer.TotalProfitTimes, CompetitionPlayer.BestWinningPotChips, CompetitionPlayer.BestWinningPower, CompetitionPlayer.BestWinningType, CompetitionPlayer.BestWinningCombo, CompetitionPlayer.TotalWalkTimes, CompetitionPlayer.Chips, CompetitionPlayer.Rank, CompetitionPlayer.TableRank, log
loopinv @=2 forall(i, 0, nP(ce), visited(P(ce,i).PlayerID) ==> P(ce,i).Chips == (?d:map[string]pokercompetition.RankData)[P(ce,i).PlayerID].Chips)
loopinv @=2 forall(i, 0, nP(ce), !visited(P(ce,i).PlayerID) ==> P(ce,i).Chips == old(P(ce,i).Chips))
loopinv @=2 forall(i, 0, nP(ce), visited(P(ce,i).PlayerID) ==> P(ce,i).Rank == (?d:map[string]pokercompetition.RankData)[P(ce,i).PlayerID].Rank)
loopinv @=2 forall(i, 0, nP(ce), !visited(P(ce,i).PlayerID) ==> P(ce,i).Rank == old(P(ce,i).Rank))
loopinv @=2 forall(i, 0, nP(ce), visited(P(ce,i).PlayerID) ==> P(ce,i).TableRank == (?d:map[string]pokercompetition.RankData)[P(ce,i).PlayerID].Rank)
loopinv @=2 forall(i, 0, nP(ce), !visited(P(ce,i).PlayerID) ==> P(ce,i).TableRank == old(P(ce,i).TableRank))
loopinv @=2 forall(i, 0, nP(ce), visited(P(ce,i).PlayerID) ==> exists(q, old(nc(EVP)), nc(EVP), callarg(EVP, q, 1) == P(ce,i)))
loopinv @=2 nc(EVP) >= old(nc(EVP))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalGameCounts> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalGameCounts grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalGameCounts == old(P(ce,i).TotalGameCounts) + 1)) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalGameCounts == old(P(ce,i).TotalGameCounts))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalGameCounts == old(P(ce,i).TotalGameCounts) + 1))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalGameCounts == old(P(ce,i).TotalGameCounts))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalFoldTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalFoldTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalFoldTimes == old(P(ce,i).TotalFoldTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFold, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalFoldTimes == old(P(ce,i).TotalFoldTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalFoldTimes == old(P(ce,i).TotalFoldTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFold, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalFoldTimes == old(P(ce,i).TotalFoldTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalPreflopFoldTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalPreflopFoldTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalPreflopFoldTimes == old(P(ce,i).TotalPreflopFoldTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFold && table.State.PlayerStates[k].GameStatistics.FoldRound == pokertable.GameRound_Preflop, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalPreflopFoldTimes == old(P(ce,i).TotalPreflopFoldTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalPreflopFoldTimes == old(P(ce,i).TotalPreflopFoldTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFold && table.State.PlayerStates[k].GameStatistics.FoldRound == pokertable.GameRound_Preflop, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalPreflopFoldTimes == old(P(ce,i).TotalPreflopFoldTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalFlopFoldTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalFlopFoldTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalFlopFoldTimes == old(P(ce,i).TotalFlopFoldTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFold && table.State.PlayerStates[k].GameStatistics.FoldRound == pokertable.GameRound_Flop, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalFlopFoldTimes == old(P(ce,i).TotalFlopFoldTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalFlopFoldTimes == old(P(ce,i).TotalFlopFoldTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFold && table.State.PlayerStates[k].GameStatistics.FoldRound == pokertable.GameRound_Flop, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalFlopFoldTimes == old(P(ce,i).TotalFlopFoldTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalTurnFoldTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalTurnFoldTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalTurnFoldTimes == old(P(ce,i).TotalTurnFoldTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFold && table.State.PlayerStates[k].GameStatistics.FoldRound == pokertable.GameRound_Turn, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalTurnFoldTimes == old(P(ce,i).TotalTurnFoldTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalTurnFoldTimes == old(P(ce,i).TotalTurnFoldTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFold && table.State.PlayerStates[k].GameStatistics.FoldRound == pokertable.GameRound_Turn, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalTurnFoldTimes == old(P(ce,i).TotalTurnFoldTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalRiverFoldTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalRiverFoldTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalRiverFoldTimes == old(P(ce,i).TotalRiverFoldTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFold && table.State.PlayerStates[k].GameStatistics.FoldRound == pokertable.GameRound_River, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalRiverFoldTimes == old(P(ce,i).TotalRiverFoldTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalRiverFoldTimes == old(P(ce,i).TotalRiverFoldTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFold && table.State.PlayerStates[k].GameStatistics.FoldRound == pokertable.GameRound_River, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalRiverFoldTimes == old(P(ce,i).TotalRiverFoldTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalActionTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalActionTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalActionTimes == old(P(ce,i).TotalActionTimes) + table.State.PlayerStates[k].GameStatistics.ActionTimes)) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalActionTimes == old(P(ce,i).TotalActionTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalActionTimes == old(P(ce,i).TotalActionTimes) + table.State.PlayerStates[k].GameStatistics.ActionTimes))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalActionTimes == old(P(ce,i).TotalActionTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalRaiseTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalRaiseTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalRaiseTimes == old(P(ce,i).TotalRaiseTimes) + table.State.PlayerStates[k].GameStatistics.RaiseTimes)) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalRaiseTimes == old(P(ce,i).TotalRaiseTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalRaiseTimes == old(P(ce,i).TotalRaiseTimes) + table.State.PlayerStates[k].GameStatistics.RaiseTimes))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalRaiseTimes == old(P(ce,i).TotalRaiseTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalCallTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalCallTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalCallTimes == old(P(ce,i).TotalCallTimes) + table.State.PlayerStates[k].GameStatistics.CallTimes)) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalCallTimes == old(P(ce,i).TotalCallTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalCallTimes == old(P(ce,i).TotalCallTimes) + table.State.PlayerStates[k].GameStatistics.CallTimes))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalCallTimes == old(P(ce,i).TotalCallTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalCheckTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalCheckTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalCheckTimes == old(P(ce,i).TotalCheckTimes) + table.State.PlayerStates[k].GameStatistics.CheckTimes)) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalCheckTimes == old(P(ce,i).TotalCheckTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalCheckTimes == old(P(ce,i).TotalCheckTimes) + table.State.PlayerStates[k].GameStatistics.CheckTimes))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalCheckTimes == old(P(ce,i).TotalCheckTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalVPIPChances> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalVPIPChances grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalVPIPChances == old(P(ce,i).TotalVPIPChances) + ite(table.State.PlayerStates[k].GameStatistics.IsVPIPChance, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalVPIPChances == old(P(ce,i).TotalVPIPChances))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalVPIPChances == old(P(ce,i).TotalVPIPChances) + ite(table.State.PlayerStates[k].GameStatistics.IsVPIPChance, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalVPIPChances == old(P(ce,i).TotalVPIPChances))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalVPIPTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalVPIPTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalVPIPTimes == old(P(ce,i).TotalVPIPTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsVPIP, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalVPIPTimes == old(P(ce,i).TotalVPIPTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalVPIPTimes == old(P(ce,i).TotalVPIPTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsVPIP, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalVPIPTimes == old(P(ce,i).TotalVPIPTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalPFRChances> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalPFRChances grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalPFRChances == old(P(ce,i).TotalPFRChances) + ite(table.State.PlayerStates[k].GameStatistics.IsPFRChance, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalPFRChances == old(P(ce,i).TotalPFRChances))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalPFRChances == old(P(ce,i).TotalPFRChances) + ite(table.State.PlayerStates[k].GameStatistics.IsPFRChance, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalPFRChances == old(P(ce,i).TotalPFRChances))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalPFRTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalPFRTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalPFRTimes == old(P(ce,i).TotalPFRTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsPFR, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalPFRTimes == old(P(ce,i).TotalPFRTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalPFRTimes == old(P(ce,i).TotalPFRTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsPFR, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalPFRTimes == old(P(ce,i).TotalPFRTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalATSChances> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalATSChances grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalATSChances == old(P(ce,i).TotalATSChances) + ite(table.State.PlayerStates[k].GameStatistics.IsATSChance, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalATSChances == old(P(ce,i).TotalATSChances))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalATSChances == old(P(ce,i).TotalATSChances) + ite(table.State.PlayerStates[k].GameStatistics.IsATSChance, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalATSChances == old(P(ce,i).TotalATSChances))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalATSTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalATSTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalATSTimes == old(P(ce,i).TotalATSTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsATS, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalATSTimes == old(P(ce,i).TotalATSTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalATSTimes == old(P(ce,i).TotalATSTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsATS, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalATSTimes == old(P(ce,i).TotalATSTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <Total3BChances> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "Total3BChances grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).Total3BChances == old(P(ce,i).Total3BChances) + ite(table.State.PlayerStates[k].GameStatistics.Is3BChance, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).Total3BChances == old(P(ce,i).Total3BChances))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).Total3BChances == old(P(ce,i).Total3BChances) + ite(table.State.PlayerStates[k].GameStatistics.Is3BChance, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).Total3BChances == old(P(ce,i).Total3BChances))

func (*competitionEngine).updatePlayerCompetitionTableRecords <Total3BTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "Total3BTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).Total3BTimes == old(P(ce,i).Total3BTimes) + ite(table.State.PlayerStates[k].GameStatistics.Is3B, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).Total3BTimes == old(P(ce,i).Total3BTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).Total3BTimes == old(P(ce,i).Total3BTimes) + ite(table.State.PlayerStates[k].GameStatistics.Is3B, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).Total3BTimes == old(P(ce,i).Total3BTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalFt3BChances> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalFt3BChances grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalFt3BChances == old(P(ce,i).TotalFt3BChances) + ite(table.State.PlayerStates[k].GameStatistics.IsFt3BChance, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalFt3BChances == old(P(ce,i).TotalFt3BChances))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalFt3BChances == old(P(ce,i).TotalFt3BChances) + ite(table.State.PlayerStates[k].GameStatistics.IsFt3BChance, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalFt3BChances == old(P(ce,i).TotalFt3BChances))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalFt3BTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalFt3BTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalFt3BTimes == old(P(ce,i).TotalFt3BTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFt3B, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalFt3BTimes == old(P(ce,i).TotalFt3BTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalFt3BTimes == old(P(ce,i).TotalFt3BTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFt3B, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalFt3BTimes == old(P(ce,i).TotalFt3BTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalCheckRaiseChances> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalCheckRaiseChances grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalCheckRaiseChances == old(P(ce,i).TotalCheckRaiseChances) + ite(table.State.PlayerStates[k].GameStatistics.IsCheckRaiseChance, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalCheckRaiseChances == old(P(ce,i).TotalCheckRaiseChances))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalCheckRaiseChances == old(P(ce,i).TotalCheckRaiseChances) + ite(table.State.PlayerStates[k].GameStatistics.IsCheckRaiseChance, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalCheckRaiseChances == old(P(ce,i).TotalCheckRaiseChances))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalCheckRaiseTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalCheckRaiseTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalCheckRaiseTimes == old(P(ce,i).TotalCheckRaiseTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsCheckRaise, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalCheckRaiseTimes == old(P(ce,i).TotalCheckRaiseTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalCheckRaiseTimes == old(P(ce,i).TotalCheckRaiseTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsCheckRaise, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalCheckRaiseTimes == old(P(ce,i).TotalCheckRaiseTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalCBetChances> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalCBetChances grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalCBetChances == old(P(ce,i).TotalCBetChances) + ite(table.State.PlayerStates[k].GameStatistics.IsCBetChance, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalCBetChances == old(P(ce,i).TotalCBetChances))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalCBetChances == old(P(ce,i).TotalCBetChances) + ite(table.State.PlayerStates[k].GameStatistics.IsCBetChance, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalCBetChances == old(P(ce,i).TotalCBetChances))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalCBetTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalCBetTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalCBetTimes == old(P(ce,i).TotalCBetTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsCBet, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalCBetTimes == old(P(ce,i).TotalCBetTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalCBetTimes == old(P(ce,i).TotalCBetTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsCBet, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalCBetTimes == old(P(ce,i).TotalCBetTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalFtCBChances> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalFtCBChances grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalFtCBChances == old(P(ce,i).TotalFtCBChances) + ite(table.State.PlayerStates[k].GameStatistics.IsFtCBChance, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalFtCBChances == old(P(ce,i).TotalFtCBChances))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalFtCBChances == old(P(ce,i).TotalFtCBChances) + ite(table.State.PlayerStates[k].GameStatistics.IsFtCBChance, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalFtCBChances == old(P(ce,i).TotalFtCBChances))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalFtCBTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "TotalFtCBTimes grows by the hand": forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), took(table, k, P(ce,i)) ==> P(ce,i).TotalFtCBTimes == old(P(ce,i).TotalFtCBTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFtCB, 1, 0))) && forall(i, 0, nP(ce), !tookAny(table, len(table.State.PlayerStates), P(ce,i)) ==> P(ce,i).TotalFtCBTimes == old(P(ce,i).TotalFtCBTimes))
loopinv @=0 forall(i, 0, nP(ce), forall(k, 0, $k, took(table, k, P(ce,i)) ==> P(ce,i).TotalFtCBTimes == old(P(ce,i).TotalFtCBTimes) + ite(table.State.PlayerStates[k].GameStatistics.IsFtCB, 1, 0)))
loopinv @=0 forall(i, 0, nP(ce), !tookAny(table, $k, P(ce,i)) ==> P(ce,i).TotalFtCBTimes == old(P(ce,i).TotalFtCBTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalProfitTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "one more win": forall(i, 0, nP(ce), forall(a, 0, len(table.State.GameState.Result.Players), won(table, a, P(ce,i)) ==> P(ce,i).TotalProfitTimes == old(P(ce,i).TotalProfitTimes) + 1)) && forall(i, 0, nP(ce), !wonAny(table, len(table.State.GameState.Result.Players), P(ce,i)) ==> P(ce,i).TotalProfitTimes == old(P(ce,i).TotalProfitTimes))
loopinv @=1 forall(i, 0, nP(ce), forall(a, 0, $k, won(table, a, P(ce,i)) ==> P(ce,i).TotalProfitTimes == old(P(ce,i).TotalProfitTimes) + 1))
loopinv @=1 forall(i, 0, nP(ce), !wonAny(table, $k, P(ce,i)) ==> P(ce,i).TotalProfitTimes == old(P(ce,i).TotalProfitTimes))

func (*competitionEngine).updatePlayerCompetitionTableRecords <BestWinningPotChips> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "best pot kept": forall(i, 0, nP(ce), forall(a, 0, len(table.State.GameState.Result.Players), won(table, a, P(ce,i)) ==> P(ce,i).BestWinningPotChips == ite(RP(table,a).Changed > old(P(ce,i).BestWinningPotChips), RP(table,a).Changed, old(P(ce,i).BestWinningPotChips)))) && forall(i, 0, nP(ce), !wonAny(table, len(table.State.GameState.Result.Players), P(ce,i)) ==> P(ce,i).BestWinningPotChips == old(P(ce,i).BestWinningPotChips))
loopinv @=1 forall(i, 0, nP(ce), forall(a, 0, $k, won(table, a, P(ce,i)) ==> P(ce,i).BestWinningPotChips == ite(RP(table,a).Changed > old(P(ce,i).BestWinningPotChips), RP(table,a).Changed, old(P(ce,i).BestWinningPotChips))))
loopinv @=1 forall(i, 0, nP(ce), !wonAny(table, $k, P(ce,i)) ==> P(ce,i).BestWinningPotChips == old(P(ce,i).BestWinningPotChips))

func (*competitionEngine).updatePlayerCompetitionTableRecords <BestHand> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "best hand kept": forall(i, 0, nP(ce), forall(a, 0, len(table.State.GameState.Result.Players), won(table, a, P(ce,i)) ==> P(ce,i).BestWinningPower == ite(handOf(table,a).Power >= old(P(ce,i).BestWinningPower), handOf(table,a).Power, old(P(ce,i).BestWinningPower)))) && forall(i, 0, nP(ce), !wonAny(table, len(table.State.GameState.Result.Players), P(ce,i)) ==> P(ce,i).BestWinningPower == old(P(ce,i).BestWinningPower))
ensures "type of the best hand kept": forall(i, 0, nP(ce), forall(a, 0, len(table.State.GameState.Result.Players), won(table, a, P(ce,i)) ==> P(ce,i).BestWinningType == ite(handOf(table,a).Power >= old(P(ce,i).BestWinningPower), handOf(table,a).Type, old(P(ce,i).BestWinningType)))) && forall(i, 0, nP(ce), !wonAny(table, len(table.State.GameState.Result.Players), P(ce,i)) ==> P(ce,i).BestWinningType == old(P(ce,i).BestWinningType))
ensures "cards of the best hand kept": forall(i, 0, nP(ce), forall(a, 0, len(table.State.GameState.Result.Players), won(table, a, P(ce,i)) ==> ite(handOf(table,a).Power >= old(P(ce,i).BestWinningPower), sameList(P(ce,i).BestWinningCombo, handOf(table,a).Cards), sameList(P(ce,i).BestWinningCombo, old(P(ce,i).BestWinningCombo))))) && forall(i, 0, nP(ce), !wonAny(table, len(table.State.GameState.Result.Players), P(ce,i)) ==> sameList(P(ce,i).BestWinningCombo, old(P(ce,i).BestWinningCombo)))
loopinv @=1 forall(i, 0, nP(ce), forall(a, 0, $k, won(table, a, P(ce,i)) ==> P(ce,i).BestWinningPower == ite(handOf(table,a).Power >= old(P(ce,i).BestWinningPower), handOf(table,a).Power, old(P(ce,i).BestWinningPower))))
loopinv @=1 forall(i, 0, nP(ce), !wonAny(table, $k, P(ce,i)) ==> P(ce,i).BestWinningPower == old(P(ce,i).BestWinningPower))
loopinv @=1 forall(i, 0, nP(ce), forall(a, 0, $k, won(table, a, P(ce,i)) ==> P(ce,i).BestWinningType == ite(handOf(table,a).Power >= old(P(ce,i).BestWinningPower), handOf(table,a).Type, old(P(ce,i).BestWinningType))))
loopinv @=1 forall(i, 0, nP(ce), !wonAny(table, $k, P(ce,i)) ==> P(ce,i).BestWinningType == old(P(ce,i).BestWinningType))
loopinv @=1 forall(i, 0, nP(ce), forall(a, 0, $k, won(table, a, P(ce,i)) ==> ite(handOf(table,a).Power >= old(P(ce,i).BestWinningPower), sameList(P(ce,i).BestWinningCombo, handOf(table,a).Cards), sameList(P(ce,i).BestWinningCombo, old(P(ce,i).BestWinningCombo)))))
loopinv @=1 forall(i, 0, nP(ce), !wonAny(table, $k, P(ce,i)) ==> sameList(P(ce,i).BestWinningCombo, old(P(ce,i).BestWinningCombo)))

func (*competitionEngine).updatePlayerCompetitionTableRecords <TotalWalkTimes> (ce, table) ()
props P07
nosafety
nocand frame dn: bound+1:
requires wf(ce) && wfHand(table)
ensures "no walk without a win": forall(i, 0, nP(ce), !wonAny(table, len(table.State.GameState.Result.Players), P(ce,i)) ==> P(ce,i).TotalWalkTimes == old(P(ce,i).TotalWalkTimes))
loopinv @=1 forall(i, 0, nP(ce), !wonAny(table, $k, P(ce,i)) ==> P(ce,i).TotalWalkTimes == old(P(ce,i).TotalWalkTimes))

## ---- eliminations
def outPS(ce, t, p) := exists(k, 0, len(t.State.PlayerStates), outAfterHand(ce, t.State.PlayerStates[k]) && t.State.PlayerStates[k].PlayerID == p.PlayerID)
def tableKnown(ce, t) := forall(k, 0, len(t.State.PlayerStates), hasPlayer(ce, t.State.PlayerStates[k].PlayerID))
func (*competitionEngine).handleTableKnockoutPlayers (ce, table) (res)
boundedonly the proof search does not finish in the time of a check
instant
props P08
modular
requires wf(ce) && wfTab(table) && distinctTable(table)
ensures "players who are out are eliminated": forall(i, 0, nP(ce), old(outPS(ce, table, P(ce,i))) ==> P(ce,i).Status == CompetitionPlayerStatus_Knockout && P(ce,i).KnockoutAt == now() / 1000000000 && P(ce,i).CurrentSeat == UnsetValue && unchangedExcept(P(ce,i), "Status", "KnockoutAt", "CurrentSeat"))
ensures "nobody else is": sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), !old(outPS(ce, table, P(ce,i))) ==> unchanged(P(ce,i)))
ensures "exactly they are returned": len(res) == old(count(k, 0, len(table.State.PlayerStates), outAfterHand(ce, table.State.PlayerStates[k])))
ensures "only players who are out are returned": forall(a, 0, len(res), exists(k, 0, len(table.State.PlayerStates), old(outAfterHand(ce, table.State.PlayerStates[k])) && table.State.PlayerStates[k].PlayerID == res[a]))
ensures "one entry in the standings each": tableKnown(ce, table) ==> nR(ce) == old(nR(ce)) + len(res) && forall(a, 0, len(res), R(ce, old(nR(ce)) + a).PlayerID == res[a] && R(ce, old(nR(ce)) + a).FinalChips == 0)
ensures "the standings so far stay": nR(ce) >= old(nR(ce)) && forall(a, 0, old(nR(ce)), R(ce,a) == old(S(ce).Rankings)[a] && unchanged(R(ce,a)))
ensures "each place is reported": tableKnown(ce, table) ==> nc(EVR) == old(nc(EVR)) + len(res) && forall(a, 0, len(res), callarg(EVR, old(nc(EVR)) + a, 0) == ce.competition.ID && callarg(EVR, old(nc(EVR)) + a, 1) == res[a] && callarg(EVR, old(nc(EVR)) + a, 2) == count(i, 0, nP(ce), P(ce,i).Chips > 0) + len(res) - a)
ensures [P08 bounded] "latest joiner lowest": tableKnown(ce, table) ==> forall(a, 0, len(res), forall(b, a, len(res), forall(i, 0, nP(ce), forall(j, 0, nP(ce), P(ce,i).PlayerID == res[a] && P(ce,j).PlayerID == res[b] ==> P(ce,i).JoinAt >= P(ce,j).JoinAt))))
ensures wf(ce)
modifies CompetitionPlayer.Status, CompetitionPlayer.KnockoutAt, CompetitionPlayer.CurrentSeat, CompetitionState.Rankings@S(ce), []*CompetitionRank, log

## ---- waiting for a re-buy
def brokeAndMay(ce, t, k, p) := t.State.PlayerStates[k].Bankroll <= 0 && t.State.PlayerStates[k].PlayerID == p.PlayerID && !p.IsReBuying && p.ReBuyTimes < Meta(ce).ReBuySetting.MaxTime
def reBuyOffered(ce, t, p) := !stopBuyIn(ce) && exists(k, 0, len(t.State.PlayerStates), brokeAndMay(ce, t, k, p))
def reBuyAny(ce, t) := exists(i, 0, nP(ce), reBuyOffered(ce, t, P(ce,i)))
def offered(ce, t, i, n) := exists(k, 0, n, old(brokeAndMay(ce, t, k, P(ce,i))))
def reBuyEnd(ce) := (now() + Meta(ce).ReBuySetting.WaitingTime * 1000000000) / 1000000000
func (*competitionEngine).handleReBuy (ce, table) ()
instant
props P08
modular
requires wf(ce) && wfTab(table)
ensures "broke players with re-buys left wait for a re-buy": forall(i, 0, nP(ce), old(reBuyOffered(ce, table, P(ce,i))) ==> P(ce,i).Status == CompetitionPlayerStatus_ReBuyWaiting && P(ce,i).IsReBuying && P(ce,i).ReBuyWaitingAt == now() / 1000000000)
ensures [P08 bounded] "for the configured time": forall(i, 0, nP(ce), old(reBuyOffered(ce, table, P(ce,i))) ==> P(ce,i).ReBuyEndAt == ite(isMTT(ce), -1, reBuyEnd(ce)))
ensures "seat kept at a single table only": forall(i, 0, nP(ce), old(reBuyOffered(ce, table, P(ce,i))) ==> P(ce,i).CurrentSeat == ite(isMTT(ce), -1, old(P(ce,i).CurrentSeat)))
ensures "nothing else of them changes": forall(i, 0, nP(ce), unchangedExcept(P(ce,i), "Status", "IsReBuying", "ReBuyWaitingAt", "ReBuyEndAt", "CurrentSeat"))
ensures "nobody else is touched": sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), !old(reBuyOffered(ce, table, P(ce,i))) ==> unchanged(P(ce,i)))
ensures "announced": forall(i, 0, nP(ce), old(reBuyOffered(ce, table, P(ce,i))) ==> exists(q, old(nc(EVP)), nc(EVP), callarg(EVP, q, 1) == P(ce,i)))
ensures "the offer is timed": nc("timer") == old(nc("timer")) + ite((isCT(ce) || isCash(ce)) && old(reBuyAny(ce, table)), 1, 0)
ensures [P08 bounded] "the seat is kept until two seconds after": nc("timer") > old(nc("timer")) ==> callarg("timer", old(nc("timer")), 0) == (reBuyEnd(ce) + 2) * 1000000000
ensures wf(ce)
modifies CompetitionPlayer.Status, CompetitionPlayer.IsReBuying, CompetitionPlayer.ReBuyWaitingAt, CompetitionPlayer.ReBuyEndAt, CompetitionPlayer.CurrentSeat, log
loopinv forall(i, 0, nP(ce), offered(ce, table, i, $k) ==> P(ce,i).Status == CompetitionPlayerStatus_ReBuyWaiting && P(ce,i).IsReBuying)
loopinv forall(i, 0, nP(ce), offered(ce, table, i, $k) ==> P(ce,i).ReBuyWaitingAt == now() / 1000000000)
loopinv forall(i, 0, nP(ce), offered(ce, table, i, $k) ==> P(ce,i).ReBuyEndAt == ite(isMTT(ce), -1, reBuyEnd(ce)))
loopinv forall(i, 0, nP(ce), offered(ce, table, i, $k) ==> P(ce,i).CurrentSeat == ite(isMTT(ce), -1, old(P(ce,i).CurrentSeat)))
loopinv forall(i, 0, nP(ce), !offered(ce, table, i, $k) ==> P(ce,i).Status == old(P(ce,i).Status) && P(ce,i).IsReBuying == old(P(ce,i).IsReBuying))
loopinv forall(i, 0, nP(ce), !offered(ce, table, i, $k) ==> P(ce,i).ReBuyWaitingAt == old(P(ce,i).ReBuyWaitingAt) && P(ce,i).ReBuyEndAt == old(P(ce,i).ReBuyEndAt))
loopinv forall(i, 0, nP(ce), !offered(ce, table, i, $k) ==> P(ce,i).CurrentSeat == old(P(ce,i).CurrentSeat))
loopinv forall(i, 0, nP(ce), offered(ce, table, i, $k) ==> exists(q, old(nc(EVP)), nc(EVP), callarg(EVP, q, 1) == P(ce,i)))
loopinv nc(EVP) >= old(nc(EVP))
loopinv len(?ids:[]string) > 0 ==> exists(i, 0, nP(ce), exists(k, 0, $k, old(brokeAndMay(ce, table, k, P(ce,i)))))
loopinv forall(i, 0, nP(ce), forall(k, 0, $k, old(brokeAndMay(ce, table, k, P(ce,i))) ==> len(?ids:[]string) > 0))

## the end of the re-buy time
def overdue(ce, p, ids) := p.Chips <= 0 && now() / 1000000000 > p.ReBuyEndAt && inlist(p.PlayerID, ids) && (isCash(ce) || isCT(ce) && p.Status == CompetitionPlayerStatus_ReBuyWaiting && p.IsReBuying)
closure reBuyOver of (*competitionEngine).handleReBuy chan timer arg 1 captures ce:*competitionEngine, table:pokertable.Table, reBuyPlayerIDs:[]string params (isCancelled)
boundedonly the proof search does not finish in the time of a check
instant
gen capture reBuyPlayerIDs := strs(q, 0, nc(EVP), true, callarg(EVP, q, 1).PlayerID)
requires wf(ce) && forall(a, 0, len(reBuyPlayerIDs), forall(b, 0, len(reBuyPlayerIDs), a != b ==> reBuyPlayerIDs[a] != reBuyPlayerIDs[b]))
ensures [P08] "a cancelled timer does nothing": isCancelled ==> nc(EV) == old(nc(EV)) && nc(LEAVE) == old(nc(LEAVE)) && nc(EVC) == old(nc(EVC)) && sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P08] "the seat of who did not re-buy is given up": !isCancelled && isCT(ce) ==> forall(i, 0, nP(ce), old(overdue(ce, P(ce,i), reBuyPlayerIDs)) ==> P(ce,i).Status == CompetitionPlayerStatus_ReBuyWaiting && !P(ce,i).IsReBuying && P(ce,i).ReBuyEndAt == -1 && P(ce,i).CurrentSeat == -1 && unchangedExcept(P(ce,i), "IsReBuying", "ReBuyEndAt", "CurrentSeat"))
ensures [P08] "nobody else is touched": forall(i, 0, old(nP(ce)), !isCT(ce) || !old(overdue(ce, P(ce,i), reBuyPlayerIDs)) ==> unchanged(old(S(ce).Players)[i]))
ensures [P08] "players with chips keep their seat": nc(LEAVE) == old(nc(LEAVE)) + ite(!isCancelled && old(exists(i, 0, nP(ce), overdue(ce, P(ce,i), reBuyPlayerIDs))), 1, 0)
ensures [P08] "exactly the overdue players leave the table": nc(LEAVE) > old(nc(LEAVE)) ==> callarg(LEAVE, old(nc(LEAVE)), 0) == table.ID && forall(q, 0, len(callarg(LEAVE, old(nc(LEAVE)), 1)), exists(i, 0, old(nP(ce)), old(overdue(ce, P(ce,i), reBuyPlayerIDs)) && old(P(ce,i).PlayerID) == callarg(LEAVE, old(nc(LEAVE)), 1)[q]))
   && forall(i, 0, old(nP(ce)), old(overdue(ce, P(ce,i), reBuyPlayerIDs)) ==> inlist(old(P(ce,i).PlayerID), callarg(LEAVE, old(nc(LEAVE)), 1)))
ensures [P05] "a cash player who does not re-buy is cashed out": !isCash(ce) ==> nc(EVC) == old(nc(EVC)) && sameList(S(ce).Players, old(S(ce).Players))
ensures [P05] "and removed": isCash(ce) && !isCancelled ==> forall(i, 0, old(nP(ce)), !old(overdue(ce, P(ce,i), reBuyPlayerIDs)) ==> exists(j, 0, nP(ce), P(ce,j) == old(S(ce).Players)[i])) && forall(j, 0, nP(ce), !inlist(P(ce,j).PlayerID, reBuyPlayerIDs) || !overdue(ce, P(ce,j), reBuyPlayerIDs))
ensures [P11] "counts published": isCT(ce) && nc(EV) > old(nc(EV)) ==> statsFresh(ce)
ensures [P25] "numbered": numbered(ce)
ensures wf(ce)
modifies CompetitionPlayer.Status, CompetitionPlayer.IsReBuying, CompetitionPlayer.ReBuyEndAt, CompetitionPlayer.CurrentSeat, CompetitionState.Players@S(ce), Statistic.PlayingPlayerCount@S(ce).Statistic, Statistic.WaitingTableBalancingPlayerCount@S(ce).Statistic, Statistic.KnockoutPlayerCount@S(ce).Statistic, Statistic.ReBuyWaitingPlayerCount@S(ce).Statistic, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, log

func (*competitionEngine).handleCTTableSettlement (ce, ids, table) ()
props P08
modular
requires wf(ce)
ensures "eliminated players leave the table": nc(LEAVE) == old(nc(LEAVE)) + ite(len(ids) > 0, 1, 0) && (len(ids) > 0 ==> callarg(LEAVE, old(nc(LEAVE)), 0) == table.ID && sameList(callarg(LEAVE, old(nc(LEAVE)), 1), ids))
modifies log
