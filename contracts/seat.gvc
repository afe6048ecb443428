package pokercompetition

func (*competitionEngine).UpdateReserveTablePlayerState (ce, tableID, ps) ()
requires wf(ce) && ps != nil
ensures [P26] "strangers change nothing": !old(hasPlayer(ce, ps.PlayerID)) ==> nc(EV) == old(nc(EV)) && nc(EVP) == old(nc(EVP)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P26] "the seat is booked for that player": forall(i, 0, nP(ce), P(ce,i).PlayerID == ps.PlayerID ==> P(ce,i).CurrentSeat == ps.Seat && P(ce,i).CurrentTableID == tableID && P(ce,i).Status == CompetitionPlayerStatus_Playing && unchangedExcept(P(ce,i), "CurrentSeat", "CurrentTableID", "Status") && nc(EVP) == old(nc(EVP)) + 1 && callarg(EVP, old(nc(EVP)), 1) == P(ce,i) && nc(EV) == old(nc(EV)) + 1)
ensures [P26] "nobody else is moved": sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), P(ce,i).PlayerID != ps.PlayerID ==> unchanged(P(ce,i)))
ensures [P25] "numbered": numbered(ce)
ensures wf(ce)
modifies CompetitionPlayer.CurrentSeat, CompetitionPlayer.CurrentTableID, CompetitionPlayer.Status, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, log
loopinv (?m:map[string]int) != nil
loopinv forall(i, 0, $k, has(?m:map[string]int, P(ce,i).PlayerID) && (?m:map[string]int)[P(ce,i).PlayerID] == i)
loopinv forallv(x, string, has(?m:map[string]int, x) ==> 0 <= (?m:map[string]int)[x] && (?m:map[string]int)[x] < $k && P(ce, (?m:map[string]int)[x]).PlayerID == x)

## the participants of a hand: every present player with chips, by index, and nobody else
def present(p) := p.Bankroll > 0 && p.IsIn
def participantsOf(m, ps) := forall(k, 0, len(ps), present(ps[k]) ==> has(m, ps[k].PlayerID)) && forallv(x, string, has(m, x) ==> 0 <= m[x] && m[x] < len(ps) && ps[m[x]].PlayerID == x && present(ps[m[x]]))

func (*competitionEngine).generateAliveParticipants (ce, ps) (res)
props P27
modular
requires forall(k, 0, len(ps), ps[k] != nil)
ensures "present players with chips": participantsOf(res, ps)
ensures fresh(res)
modifies nothing
loopinv (?m:map[string]int) != nil
loopinv fresh(?m:map[string]int)
loopinv forall(k, 0, $k, present(ps[k]) ==> has(?m:map[string]int, ps[k].PlayerID))
loopinv forallv(x, string, has(?m:map[string]int, x) ==> 0 <= (?m:map[string]int)[x] && (?m:map[string]int)[x] < $k && ps[(?m:map[string]int)[x]].PlayerID == x && present(ps[(?m:map[string]int)[x]]))

func (*competitionEngine).ReadyFirstTableGame (ce, tableID, gameCount, ps) (err)
props P27
requires ce != nil && ce.tableManagerBackend != nil && forall(k, 0, len(ps), ps[k] != nil)
ensures "first hand is opened once": nc(SETUPG) == old(nc(SETUPG)) + 1 && callarg(SETUPG, old(nc(SETUPG)), 0) == tableID && callarg(SETUPG, old(nc(SETUPG)), 1) == gameCount && err == callret(SETUPG, old(nc(SETUPG)), 0)
ensures "with exactly the present players with chips": participantsOf(callarg(SETUPG, old(nc(SETUPG)), 2), ps)
modifies log

def readyCount(t) := count(k, 0, len(t.State.PlayerStates), present(t.State.PlayerStates[k]))
def mayReopen(ce, t) := readyCount(t) >= Meta(ce).TableMinPlayerCount && !breaking(ce) && (isCash(ce) || isMTT(ce) || isCT(ce) && S(ce).Status == CompetitionStateStatus_DelayedBuyIn)
func (*competitionEngine).updatePauseCompetition (ce, table, idx) ()
props P27
requires wf(ce) && table.State != nil && forall(k, 0, len(table.State.PlayerStates), table.State.PlayerStates[k] != nil)
ensures "a paused table is reopened exactly when enough players are present and it is not a break": nc(SETUPG) == old(nc(SETUPG)) + ite(old(mayReopen(ce, table)), 1, 0)
ensures "next hand": old(mayReopen(ce, table)) ==> callarg(SETUPG, old(nc(SETUPG)), 0) == table.ID && callarg(SETUPG, old(nc(SETUPG)), 1) == table.State.GameCount + 1
ensures "with exactly the present players with chips": old(mayReopen(ce, table)) ==> participantsOf(callarg(SETUPG, old(nc(SETUPG)), 2), table.State.PlayerStates)
ensures "otherwise nothing happens": !old(mayReopen(ce, table)) ==> nc(EV) == old(nc(EV))
ensures [P25] "numbered": numbered(ce)
modifies Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, log
loopinv (?n:int) == count(j, 0, $k, present(table.State.PlayerStates[j]))
