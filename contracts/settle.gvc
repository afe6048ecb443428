package pokercompetition

## ---- when a competition is over
func (*competitionEngine).shouldCloseCTCompetition (ce, startAt, alive) (r)
props P12
modular
instant
requires wf(ce)
ensures "single-table tournaments only": !isCT(ce) ==> !r
ensures "time is up or too few players are left": isCT(ce) ==> (r <==> now() / 1000000000 > startAt + Meta(ce).MaxDuration || stopBuyIn(ce) && alive < Meta(ce).TableMinPlayerCount)
modifies log

func (*competitionEngine).shouldCloseCashCompetition (ce, startAt) (r)
props P12
modular
instant
requires wf(ce)
ensures "cash games only": !isCash(ce) ==> !r
ensures "time is up": isCash(ce) ==> (r <==> now() / 1000000000 > startAt + Meta(ce).MaxDuration)
modifies log

## ---- a hand is settled
def settleKey(t) := sprintf("%s.%d", t.ID, t.State.GameCount)
def settled(ce, t) := has(ce.gameSettledRecords, settleKey(t)) && as(syncval(ce.gameSettledRecords, settleKey(t)), bool)
def overCT(ce, t) := isCT(ce) && (now() / 1000000000 > t.State.StartAt + Meta(ce).MaxDuration || stopBuyIn(ce) && aliveAt(t) < Meta(ce).TableMinPlayerCount)
def overCash(ce, t) := isCash(ce) && now() / 1000000000 > t.State.StartAt + Meta(ce).MaxDuration
def brokeCount(ce, t) := count(k, 0, len(t.State.PlayerStates), t.State.PlayerStates[k].Bankroll <= 0)
## a repeated report of a hand that is settled already
func (*competitionEngine).settleCompetitionTable <Again> (ce, table, idx) ()
prune
instant
requires wf(ce) && wfBreak(ce) && wfHand(table) && unlocked(ce) && tableKnown(ce, table) && settled(ce, table)
requires Meta(ce).ReBuySetting.WaitingTime > 0
ensures [P13] "a settled hand is not settled again": old(settled(ce, table)) ==> forall(i, 0, nP(ce), unchanged(P(ce,i))) && sameList(S(ce).Players, old(S(ce).Players)) && sameList(S(ce).Rankings, old(S(ce).Rankings)) && S(ce).Status == old(S(ce).Status) && unchanged(S(ce).AdvanceState) && unchanged(S(ce).Statistic)
ensures [P13] "and nothing is reported again": old(settled(ce, table)) ==> nc(EV) == old(nc(EV)) && nc(EVS) == old(nc(EVS)) && nc(EVP) == old(nc(EVP)) && nc(EVR) == old(nc(EVR)) && nc(LEAVE) == old(nc(LEAVE)) && nc("timer") == old(nc("timer"))
ensures [P13] "it stays remembered": settled(ce, table) && forallv(x, string, has(ce.gameSettledRecords, x) == old(has(ce.gameSettledRecords, x)))
ensures [P25] "numbered": numbered(ce)
ensures wf(ce) && wfBreak(ce) && unlocked(ce)

func (*competitionEngine).settleCompetitionTable (ce, table, idx) ()
boundedonly the whole settlement is too large for one proof (its parts are proved one by one, and the settlement of a settled hand above)
instant
requires wf(ce) && wfBreak(ce) && wfHand(table) && unlocked(ce) && tableKnown(ce, table)
requires Meta(ce).ReBuySetting.WaitingTime > 0
ensures [P13] "a settled hand is remembered": settled(ce, table)
ensures [P13] "other hands are not": forallv(x, string, x != settleKey(table) ==> has(ce.gameSettledRecords, x) == old(has(ce.gameSettledRecords, x)))
ensures [P07] "the books show the table's chips": !old(settled(ce, table)) ==> forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), table.State.PlayerStates[k].PlayerID == P(ce,i).PlayerID ==> P(ce,i).Chips == table.State.PlayerStates[k].Bankroll))
ensures [P07] "nobody joins, only cash players go": !isCash(ce) ==> sameList(S(ce).Players, old(S(ce).Players))
ensures [P07] "players of other tables keep their chips": forall(i, 0, old(nP(ce)), !old(exists(k, 0, len(table.State.PlayerStates), table.State.PlayerStates[k].PlayerID == P(ce,i).PlayerID)) ==> old(S(ce).Players)[i].Chips == old(P(ce,i).Chips))
ensures [P08] "players without chips are out or wait for a re-buy": !old(settled(ce, table)) && isCT(ce) ==> forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), table.State.PlayerStates[k].PlayerID == P(ce,i).PlayerID && table.State.PlayerStates[k].Bankroll <= 0 && !old(P(ce,i).IsReBuying) ==> P(ce,i).Status == CompetitionPlayerStatus_Knockout || P(ce,i).Status == CompetitionPlayerStatus_ReBuyWaiting))
ensures [P08] "players with chips are not eliminated": isCT(ce) ==> forall(i, 0, nP(ce), forall(k, 0, len(table.State.PlayerStates), table.State.PlayerStates[k].PlayerID == P(ce,i).PlayerID && table.State.PlayerStates[k].Bankroll > 0 ==> P(ce,i).Status == old(P(ce,i).Status)))
ensures [P11] "counts published": !old(settled(ce, table)) ==> statsFresh(ce)
ensures [P12 bounded] "the competition is closed three seconds later": !old(settled(ce, table)) && (old(overCT(ce, table)) || old(overCash(ce, table))) ==> exists(q, old(nc("timer")), nc("timer"), callarg("timer", q, 0) == now() + 3000000000)
ensures [P12] "it is not closed before its time": !old(overCT(ce, table)) && !old(overCash(ce, table)) && !isMTT(ce) && !old(breaking(ce)) && old(stopBuyIn(ce)) ==> nc("timer") == old(nc("timer"))
ensures [P25] "the settlement is announced": !old(settled(ce, table)) ==> nc(EV) > old(nc(EV)) && nc(EVS) > old(nc(EVS)) && callarg(EVS, nc(EVS) - 1, 0) == CompetitionStateEvent_TableGameSettled && callarg(EVS, nc(EVS) - 1, 1) == ce.competition
ensures [P25] "numbered": numbered(ce)
ensures wf(ce) && wfBreak(ce) && unlocked(ce)

closure closeAfterHand of (*competitionEngine).settleCompetitionTable chan timer arg 1 captures ce:*competitionEngine params (isCancelled)
props P12
instant
requires wf(ce)
ensures "a cancelled timer does nothing": isCancelled ==> S(ce).Status == old(S(ce).Status) && nc(EV) == old(nc(EV)) && nc(EVR) == old(nc(EVR))
ensures "the competition ends": !isCancelled && !old(ended(ce)) ==> S(ce).Status == CompetitionStateStatus_End
ensures "but only once": old(ended(ce)) ==> S(ce).Status == old(S(ce).Status) && nc(EV) == old(nc(EV)) && nc(EVR) == old(nc(EVR)) && sameList(S(ce).Rankings, old(S(ce).Rankings))
