package pokercompetition

def rankable(ce) := S(ce).Status == CompetitionStateStatus_Registering || S(ce).Status == CompetitionStateStatus_DelayedBuyIn || S(ce).Status == CompetitionStateStatus_StoppedBuyIn
def alive(ce, i) := P(ce,i).Chips > 0
def waiting(ce, i) := P(ce,i).Chips <= 0 && P(ce,i).Status == CompetitionPlayerStatus_ReBuyWaiting
def nAlive(ce) := count(j, 0, nP(ce), alive(ce, j))
def nWaiting(ce) := count(j, 0, nP(ce), waiting(ce, j))
## the elimination list names each player once, and only players without chips who cannot re-buy
def rankingsClean(ce) := forall(a, 0, nR(ce), forall(b, 0, nR(ce), a != b ==> R(ce,a).PlayerID != R(ce,b).PlayerID))
   && forall(a, 0, nR(ce), forall(i, 0, nP(ce), P(ce,i).PlayerID == R(ce,a).PlayerID ==> !alive(ce,i) && !waiting(ce,i)))
def IM(m, ce, n) := forall(i, 0, n, has(m, P(ce,i).PlayerID) && m[P(ce,i).PlayerID] == i) && forallv(x, string, has(m, x) ==> 0 <= m[x] && m[x] < n && P(ce, m[x]).PlayerID == x)

func (*competitionEngine).refreshPlayerCompetitionRanks (ce) ()
modular
props P10
requires wf(ce)
ensures "closed or restoring competitions keep their ranks": !rankable(ce) ==> nc(EVS) == old(nc(EVS)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures "rank event": rankable(ce) ==> nc(EVS) == old(nc(EVS)) + 1 && callarg(EVS, old(nc(EVS)), 0) == CompetitionStateEvent_PlayerRankUpdated
ensures [P10 bounded] "chip leaders first": rankable(ce) && rankingsClean(ce) ==> forall(i, 0, nP(ce), forall(j, 0, nP(ce), alive(ce,i) && alive(ce,j) && (P(ce,i).Chips > P(ce,j).Chips || P(ce,i).Chips == P(ce,j).Chips && P(ce,i).JoinAt < P(ce,j).JoinAt) ==> P(ce,i).CompetitionRank < P(ce,j).CompetitionRank))
ensures [P10 bounded] "alive ranks fill 1..n": rankable(ce) && rankingsClean(ce) ==> forall(i, 0, nP(ce), alive(ce,i) ==> 1 <= P(ce,i).CompetitionRank && P(ce,i).CompetitionRank <= nAlive(ce) && forall(j, 0, nP(ce), alive(ce,j) && i != j ==> P(ce,i).CompetitionRank != P(ce,j).CompetitionRank))
ensures [P10 bounded] "re-buy waiters next": rankable(ce) && rankingsClean(ce) ==> forall(i, 0, nP(ce), waiting(ce,i) ==> nAlive(ce) < P(ce,i).CompetitionRank && P(ce,i).CompetitionRank <= nAlive(ce) + nWaiting(ce) && forall(j, 0, nP(ce), waiting(ce,j) && i != j ==> P(ce,i).CompetitionRank != P(ce,j).CompetitionRank))
ensures [P10 bounded] "later waiters ahead": rankable(ce) && rankingsClean(ce) ==> forall(i, 0, nP(ce), forall(j, 0, nP(ce), waiting(ce,i) && waiting(ce,j) && P(ce,i).ReBuyWaitingAt > P(ce,j).ReBuyWaitingAt ==> P(ce,i).CompetitionRank < P(ce,j).CompetitionRank))
ensures [P10 bounded] "eliminated players last, in reverse order of elimination": rankable(ce) && rankingsClean(ce) ==> forall(a, 0, nR(ce), forall(i, 0, nP(ce), P(ce,i).PlayerID == R(ce,a).PlayerID ==> P(ce,i).CompetitionRank == nAlive(ce) + nWaiting(ce) + 1 + count(q, a+1, nR(ce), hasPlayer(ce, R(ce,q).PlayerID))))
ensures "only ranks change": forall(i, 0, nP(ce), unchangedExcept(P(ce,i), "CompetitionRank")) && nP(ce) == old(nP(ce))
modifies CompetitionPlayer.CompetitionRank, log
loopinv @0 IM((?competitionPlayerIdxMap:map[string]int), ce, $k)
loopinv @0,1,2,3 (?competitionPlayerIdxMap:map[string]int) != nil
loopinv @0 forall(a, 0, len((?playingPlayers:[]CompetitionPlayer)), has((?competitionPlayerIdxMap:map[string]int), (?playingPlayers:[]CompetitionPlayer)[a].PlayerID) && let(i, (?competitionPlayerIdxMap:map[string]int)[(?playingPlayers:[]CompetitionPlayer)[a].PlayerID], alive(ce, i) && (?playingPlayers:[]CompetitionPlayer)[a].Chips == P(ce,i).Chips && (?playingPlayers:[]CompetitionPlayer)[a].JoinAt == P(ce,i).JoinAt))
loopinv @0 forall(a, 0, len((?reBuyWaitingPlayers:[]CompetitionPlayer)), has((?competitionPlayerIdxMap:map[string]int), (?reBuyWaitingPlayers:[]CompetitionPlayer)[a].PlayerID) && let(i, (?competitionPlayerIdxMap:map[string]int)[(?reBuyWaitingPlayers:[]CompetitionPlayer)[a].PlayerID], waiting(ce, i) && (?reBuyWaitingPlayers:[]CompetitionPlayer)[a].ReBuyWaitingAt == P(ce,i).ReBuyWaitingAt))
loopinv @0 len((?playingPlayers:[]CompetitionPlayer)) == count(j, 0, $k, alive(ce, j))
loopinv @0 forall(i, 0, $k, alive(ce,i) ==> (?playingPlayers:[]CompetitionPlayer)[count(j, 0, i, alive(ce, j))].PlayerID == P(ce,i).PlayerID)
loopinv @0 forall(a, 0, len((?playingPlayers:[]CompetitionPlayer)), forall(b, 0, len((?playingPlayers:[]CompetitionPlayer)), a != b ==> (?playingPlayers:[]CompetitionPlayer)[a].PlayerID != (?playingPlayers:[]CompetitionPlayer)[b].PlayerID))
loopinv @0 len((?reBuyWaitingPlayers:[]CompetitionPlayer)) == count(j, 0, $k, waiting(ce, j))
loopinv @0 forall(i, 0, $k, waiting(ce,i) ==> (?reBuyWaitingPlayers:[]CompetitionPlayer)[count(j, 0, i, waiting(ce, j))].PlayerID == P(ce,i).PlayerID)
loopinv @0 forall(a, 0, len((?reBuyWaitingPlayers:[]CompetitionPlayer)), forall(b, 0, len((?reBuyWaitingPlayers:[]CompetitionPlayer)), a != b ==> (?reBuyWaitingPlayers:[]CompetitionPlayer)[a].PlayerID != (?reBuyWaitingPlayers:[]CompetitionPlayer)[b].PlayerID))
loopinv @1,2 (?rank:int) == pre((?rank:int)) + $k
loopinv @1 forall(a, 0, $k, P(ce, (?competitionPlayerIdxMap:map[string]int)[(?playingPlayers:[]CompetitionPlayer)[a].PlayerID]).CompetitionRank == pre((?rank:int)) + a)
loopinv @2 forall(a, 0, $k, P(ce, (?competitionPlayerIdxMap:map[string]int)[(?reBuyWaitingPlayers:[]CompetitionPlayer)[a].PlayerID]).CompetitionRank == pre((?rank:int)) + a)
loopinv @2 forall(a, 0, len((?playingPlayers:[]CompetitionPlayer)), P(ce, (?competitionPlayerIdxMap:map[string]int)[(?playingPlayers:[]CompetitionPlayer)[a].PlayerID]).CompetitionRank == 1 + a)
loopinv @3 rankingsClean(ce) ==> forall(a, 0, len((?playingPlayers:[]CompetitionPlayer)), P(ce, (?competitionPlayerIdxMap:map[string]int)[(?playingPlayers:[]CompetitionPlayer)[a].PlayerID]).CompetitionRank == 1 + a)
loopinv @3 rankingsClean(ce) ==> forall(a, 0, len((?reBuyWaitingPlayers:[]CompetitionPlayer)), P(ce, (?competitionPlayerIdxMap:map[string]int)[(?reBuyWaitingPlayers:[]CompetitionPlayer)[a].PlayerID]).CompetitionRank == 1 + nAlive(ce) + a)
loopinv @3 (?rank:int) == pre((?rank:int)) + count(q, $i+1, nR(ce), has((?competitionPlayerIdxMap:map[string]int), R(ce,q).PlayerID))
loopinv @3 rankingsClean(ce) ==> forall(a, $i+1, nR(ce), has((?competitionPlayerIdxMap:map[string]int), R(ce,a).PlayerID) ==> P(ce, (?competitionPlayerIdxMap:map[string]int)[R(ce,a).PlayerID]).CompetitionRank == pre((?rank:int)) + count(q, a+1, nR(ce), has((?competitionPlayerIdxMap:map[string]int), R(ce,q).PlayerID)))

func (*competitionEngine).refreshPlayerStatusStatistics (ce) ()
modular
props P11
requires wf(ce)
ensures "status counts": statsFresh(ce)
ensures "buy-in totals kept": S(ce).Statistic.TotalBuyInCount == old(S(ce).Statistic.TotalBuyInCount) && S(ce).Statistic.TotalAddonCount == old(S(ce).Statistic.TotalAddonCount)
modifies Statistic.PlayingPlayerCount@S(ce).Statistic, Statistic.WaitingTableBalancingPlayerCount@S(ce).Statistic, Statistic.KnockoutPlayerCount@S(ce).Statistic, Statistic.ReBuyWaitingPlayerCount@S(ce).Statistic
