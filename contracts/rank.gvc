package pokercompetition

def distinctIDs(ps) := forall(k, 0, len(ps), ps[k] != nil) && forall(k, 0, len(ps), forall(l, 0, len(ps), k != l ==> ps[k].PlayerID != ps[l].PlayerID))
def inGame(ps, gp) := forall(g, 0, len(gp), 0 <= gp[g] && gp[g] < len(ps)) && forall(g, 0, len(gp), forall(h, 0, len(gp), g != h ==> gp[g] != gp[h]))
def allKnown(ce, ps, gp) := forall(g, 0, len(gp), hasPlayer(ce, ps[gp[g]].PlayerID))

func (*competitionEngine).GetParticipatedPlayerTableRankingData (ce, cid, ps, gp) (res)
props P14
modular
requires wf(ce) && distinctIDs(ps) && inGame(ps, gp)
gen gp := ints(i, 0, len(ps), rnd(0, 2) > 0)
ensures "every player of the table is listed with the table's chips": forall(k, 0, len(ps), has(res, ps[k].PlayerID) && res[ps[k].PlayerID].PlayerID == ps[k].PlayerID && res[ps[k].PlayerID].Chips == ps[k].Bankroll)
ensures "nobody else is listed": forallv(x, string, has(res, x) ==> exists(k, 0, len(ps), ps[k].PlayerID == x))
ensures "bystanders have rank 0": forall(k, 0, len(ps), !exists(g, 0, len(gp), gp[g] == k) ==> res[ps[k].PlayerID].Rank == 0)
ensures "participants are ranked 1..n": forall(g, 0, len(gp), 1 <= res[ps[gp[g]].PlayerID].Rank && res[ps[gp[g]].PlayerID].Rank <= len(gp))
ensures [P14 bounded] "no rank twice": forall(g, 0, len(gp), forall(h, 0, len(gp), g != h ==> res[ps[gp[g]].PlayerID].Rank != res[ps[gp[h]].PlayerID].Rank))
ensures [P14 bounded] "more chips, better rank": allKnown(ce, ps, gp) ==> forall(g, 0, len(gp), forall(h, 0, len(gp), ps[gp[g]].Bankroll > ps[gp[h]].Bankroll ==> res[ps[gp[g]].PlayerID].Rank < res[ps[gp[h]].PlayerID].Rank))
ensures [P14 bounded] "earlier joiner first on a tie": allKnown(ce, ps, gp) ==> forall(g, 0, len(gp), forall(h, 0, len(gp), ps[gp[g]].Bankroll == ps[gp[h]].Bankroll ==>
   forall(i, 0, nP(ce), forall(j, 0, nP(ce), P(ce,i).PlayerID == ps[gp[g]].PlayerID && P(ce,j).PlayerID == ps[gp[h]].PlayerID && P(ce,i).JoinAt < P(ce,j).JoinAt ==> res[ps[gp[g]].PlayerID].Rank < res[ps[gp[h]].PlayerID].Rank))))
ensures fresh(res)
modifies nothing
loopinv (?m:map[string]int) != nil
loopinv (?rd:map[string]RankData) != nil
loopinv fresh((?rd:map[string]RankData))
loopinv IM((?m:map[string]int), ce, $k)
loopinv @=0 len((?pp:[]pokertable.TablePlayerState)) == $k
loopinv @=0 forall(g, 0, len((?pp:[]pokertable.TablePlayerState)), (?pp:[]pokertable.TablePlayerState)[g].PlayerID == ps[gp[g]].PlayerID && (?pp:[]pokertable.TablePlayerState)[g].Bankroll == ps[gp[g]].Bankroll)
loopinv @=1 (?rank:int) == 1 + $k
loopinv @=1 forall(a, 0, $k, has((?rd:map[string]RankData), (?pp:[]pokertable.TablePlayerState)[a].PlayerID) && (?rd:map[string]RankData)[(?pp:[]pokertable.TablePlayerState)[a].PlayerID].PlayerID == (?pp:[]pokertable.TablePlayerState)[a].PlayerID && (?rd:map[string]RankData)[(?pp:[]pokertable.TablePlayerState)[a].PlayerID].Rank == a + 1 && (?rd:map[string]RankData)[(?pp:[]pokertable.TablePlayerState)[a].PlayerID].Chips == (?pp:[]pokertable.TablePlayerState)[a].Bankroll)
loopinv @=1 forallv(x, string, has((?rd:map[string]RankData), x) ==> exists(a, 0, $k, (?pp:[]pokertable.TablePlayerState)[a].PlayerID == x))
loopinv @=2 forall(a, 0, len((?pp:[]pokertable.TablePlayerState)), has((?rd:map[string]RankData), (?pp:[]pokertable.TablePlayerState)[a].PlayerID) && (?rd:map[string]RankData)[(?pp:[]pokertable.TablePlayerState)[a].PlayerID].PlayerID == (?pp:[]pokertable.TablePlayerState)[a].PlayerID && (?rd:map[string]RankData)[(?pp:[]pokertable.TablePlayerState)[a].PlayerID].Rank == a + 1 && (?rd:map[string]RankData)[(?pp:[]pokertable.TablePlayerState)[a].PlayerID].Chips == (?pp:[]pokertable.TablePlayerState)[a].Bankroll)
loopinv @=2 forall(k, 0, $k, has((?rd:map[string]RankData), ps[k].PlayerID) && (?rd:map[string]RankData)[ps[k].PlayerID].PlayerID == ps[k].PlayerID && (?rd:map[string]RankData)[ps[k].PlayerID].Chips == ps[k].Bankroll)
loopinv @=2 forall(k, 0, $k, (?rd:map[string]RankData)[ps[k].PlayerID].Rank == 0 || exists(a, 0, len((?pp:[]pokertable.TablePlayerState)), (?pp:[]pokertable.TablePlayerState)[a].PlayerID == ps[k].PlayerID))
loopinv @=2 forallv(x, string, has((?rd:map[string]RankData), x) ==> exists(a, 0, len((?pp:[]pokertable.TablePlayerState)), (?pp:[]pokertable.TablePlayerState)[a].PlayerID == x) || exists(k, 0, $k, ps[k].PlayerID == x))

func (*competitionEngine).GetParticipatedPlayerCompetitionRankingData (ce, cid, players) (res)
props P12
modular
requires forall(i, 0, len(players), players[i] != nil) && forall(i, 0, len(players), forall(j, 0, len(players), i != j ==> players[i].PlayerID != players[j].PlayerID))
ensures "one entry per player with chips": len(res) == count(i, 0, len(players), players[i].Chips > 0)
ensures "places count up from 1": forall(a, 0, len(res), res[a].Rank == a + 1)
ensures "entries are players with chips": forall(a, 0, len(res), exists(i, 0, len(players), players[i].PlayerID == res[a].PlayerID && players[i].Chips == res[a].Chips && players[i].Chips > 0))
ensures "nobody twice": forall(a, 0, len(res), forall(b, 0, len(res), a != b ==> res[a].PlayerID != res[b].PlayerID))
ensures "every player with chips is listed": forall(i, 0, len(players), players[i].Chips > 0 ==> exists(a, 0, len(res), res[a].PlayerID == players[i].PlayerID))
ensures "more chips, better place": forall(a, 0, len(res), forall(b, a, len(res), res[a].Chips >= res[b].Chips))
ensures [P12 bounded] "earlier joiner first on a tie": forall(i, 0, len(players), forall(j, 0, len(players), players[i].Chips > 0 && players[i].Chips == players[j].Chips && players[i].JoinAt < players[j].JoinAt ==>
   forall(a, 0, len(res), forall(b, 0, len(res), res[a].PlayerID == players[i].PlayerID && res[b].PlayerID == players[j].PlayerID ==> a < b))))
modifies nothing
loopinv @0 len((?pp:[]CompetitionPlayer)) == count(i, 0, $k, players[i].Chips > 0)
loopinv @0 forall(a, 0, len((?pp:[]CompetitionPlayer)), exists(i, 0, $k, players[i].PlayerID == (?pp:[]CompetitionPlayer)[a].PlayerID && players[i].Chips == (?pp:[]CompetitionPlayer)[a].Chips && players[i].JoinAt == (?pp:[]CompetitionPlayer)[a].JoinAt && players[i].Chips > 0))
loopinv @0 forall(i, 0, $k, players[i].Chips > 0 ==> (?pp:[]CompetitionPlayer)[count(j, 0, i, players[j].Chips > 0)].PlayerID == players[i].PlayerID)
loopinv @0 forall(a, 0, len((?pp:[]CompetitionPlayer)), forall(b, 0, len((?pp:[]CompetitionPlayer)), a != b ==> (?pp:[]CompetitionPlayer)[a].PlayerID != (?pp:[]CompetitionPlayer)[b].PlayerID))
loopinv @1 (?rank:int) == 1 + $k
loopinv @1 len((?rd:[]RankData)) == $k
loopinv @1 forall(a, 0, $k, (?rd:[]RankData)[a].PlayerID == (?pp:[]CompetitionPlayer)[a].PlayerID && (?rd:[]RankData)[a].Chips == (?pp:[]CompetitionPlayer)[a].Chips && (?rd:[]RankData)[a].Rank == a + 1)

def dropsAtStop(ce, i) := P(ce,i).Chips == 0 && P(ce,i).Status == CompetitionPlayerStatus_ReBuyWaiting
func (*competitionEngine).GetSortedStopBuyInKnockoutPlayerRankings (ce) (res)
props P09
modular
requires wf(ce)
ensures "as many as wait without chips": len(res) == count(i, 0, nP(ce), dropsAtStop(ce, i))
ensures "exactly those who wait without chips": forall(a, 0, len(res), exists(i, 0, nP(ce), dropsAtStop(ce, i) && P(ce,i).PlayerID == res[a])) && forall(i, 0, nP(ce), dropsAtStop(ce, i) ==> exists(a, 0, len(res), res[a] == P(ce,i).PlayerID))
ensures "nobody twice": forall(a, 0, len(res), forall(b, 0, len(res), a != b ==> res[a] != res[b]))
ensures [P09 bounded] "latest joiner lowest": forall(i, 0, nP(ce), forall(j, 0, nP(ce), dropsAtStop(ce, i) && dropsAtStop(ce, j) && P(ce,i).JoinAt > P(ce,j).JoinAt ==> forall(a, 0, len(res), forall(b, 0, len(res), res[a] == P(ce,i).PlayerID && res[b] == P(ce,j).PlayerID ==> a < b))))
modifies nothing
loopinv @0 len((?pp:[]CompetitionPlayer)) == count(i, 0, $k, dropsAtStop(ce, i))
loopinv @0 forall(a, 0, len((?pp:[]CompetitionPlayer)), exists(i, 0, $k, dropsAtStop(ce, i) && P(ce,i).PlayerID == (?pp:[]CompetitionPlayer)[a].PlayerID && P(ce,i).JoinAt == (?pp:[]CompetitionPlayer)[a].JoinAt))
loopinv @0 forall(i, 0, $k, dropsAtStop(ce, i) ==> (?pp:[]CompetitionPlayer)[count(j, 0, i, dropsAtStop(ce, j))].PlayerID == P(ce,i).PlayerID)
loopinv @0 forall(a, 0, len((?pp:[]CompetitionPlayer)), forall(b, 0, len((?pp:[]CompetitionPlayer)), a != b ==> (?pp:[]CompetitionPlayer)[a].PlayerID != (?pp:[]CompetitionPlayer)[b].PlayerID))
loopinv @1 len(?ids:[]string) == $k
loopinv @1 forall(a, 0, $k, (?ids:[]string)[a] == (?pp:[]CompetitionPlayer)[a].PlayerID)

## who is out after a hand: no chips, and no re-buy left or buy-in over; players already out stay out
def outAfterHand(ce, t) := t.Bankroll <= 0 && !exists(i, 0, nP(ce), P(ce,i).PlayerID == t.PlayerID && (!stopBuyIn(ce) && P(ce,i).ReBuyTimes < Meta(ce).ReBuySetting.MaxTime || P(ce,i).Status == CompetitionPlayerStatus_Knockout))
func (*competitionEngine).GetSortedTableSettlementKnockoutPlayerRankings (ce, ps) (res)
nocand dn: bound+1: freshAL
props P08
modular
requires wf(ce) && distinctIDs(ps)
ensures "as many as are out": len(res) == count(k, 0, len(ps), outAfterHand(ce, ps[k]))
ensures "only players who are out": forall(a, 0, len(res), exists(k, 0, len(ps), outAfterHand(ce, ps[k]) && ps[k].PlayerID == res[a]))
ensures [P08 bounded] "every player who is out": forall(k, 0, len(ps), outAfterHand(ce, ps[k]) ==> exists(a, 0, len(res), res[a] == ps[k].PlayerID))
ensures "nobody twice": forall(a, 0, len(res), forall(b, 0, len(res), a != b ==> res[a] != res[b]))
ensures [P08 bounded] "latest joiner lowest": forall(k, 0, len(ps), hasPlayer(ce, ps[k].PlayerID)) ==> forall(a, 0, len(res), forall(b, a, len(res), forall(i, 0, nP(ce), forall(j, 0, nP(ce), P(ce,i).PlayerID == res[a] && P(ce,j).PlayerID == res[b] ==> P(ce,i).JoinAt >= P(ce,j).JoinAt))))
modifies nothing
loopinv (?m:map[string]int) != nil
loopinv IM((?m:map[string]int), ce, $k)
loopinv @=0 len((?pp:[]pokertable.TablePlayerState)) == count(k, 0, $k, outAfterHand(ce, ps[k]))
loopinv @=0 forall(a, 0, len((?pp:[]pokertable.TablePlayerState)), exists(k, 0, $k, outAfterHand(ce, ps[k]) && ps[k].PlayerID == (?pp:[]pokertable.TablePlayerState)[a].PlayerID))
loopinv @=0 forall(k, 0, $k, outAfterHand(ce, ps[k]) ==> exists(a, 0, len((?pp:[]pokertable.TablePlayerState)), (?pp:[]pokertable.TablePlayerState)[a].PlayerID == ps[k].PlayerID))
loopinv @=0 forall(a, 0, len((?pp:[]pokertable.TablePlayerState)), forall(b, 0, len((?pp:[]pokertable.TablePlayerState)), a != b ==> (?pp:[]pokertable.TablePlayerState)[a].PlayerID != (?pp:[]pokertable.TablePlayerState)[b].PlayerID))
