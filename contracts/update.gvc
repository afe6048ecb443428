package pokercompetition

## ---- a table reports its state
def fits(table, st) := table.State.Status == st
def tableDue(ce, table) := hasTable(ce, table.ID) && !ended(ce)
def sameTable(a, b) := a.ID == b.ID && a.State.Status == b.State.Status && a.State.GameCount == b.State.GameCount && a.State.StartAt == b.State.StartAt && len(a.State.PlayerStates) == len(b.State.PlayerStates)
   && forall(k, 0, len(b.State.PlayerStates), a.State.PlayerStates[k].PlayerID == b.State.PlayerStates[k].PlayerID && a.State.PlayerStates[k].Bankroll == b.State.PlayerStates[k].Bankroll && a.State.PlayerStates[k].Seat == b.State.PlayerStates[k].Seat && a.State.PlayerStates[k].IsIn == b.State.PlayerStates[k].IsIn)
def quietBooks(ce) := nc(EV) == old(nc(EV)) && nc(EVS) == old(nc(EVS)) && nc(EVP) == old(nc(EVP)) && nc(EVR) == old(nc(EVR)) && nc(SETUPG) == old(nc(SETUPG)) && nc(STARTG) == old(nc(STARTG)) && nc("timer") == old(nc("timer")) && S(ce).Status == old(S(ce).Status) && sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
## a report of a table that is not the competition's, or after its end
func (*competitionEngine).UpdateTable <Stranger> (ce, table) ()
prune
props P26
instant
requires wf(ce) && wfBreak(ce) && wfClock(ce) && unlocked(ce) && wfTable(table) && wfHand(table) && tableKnown(ce, table) && Meta(ce).ReBuySetting.WaitingTime > 0 && !tableDue(ce, table)
ensures "a report of an unknown table or after the end is ignored": sameList(S(ce).Tables, old(S(ce).Tables)) && quietBooks(ce) && forall(i, 0, nP(ce), unchanged(P(ce,i))) && forall(i, 0, nT(ce), unchanged(T(ce,i)))
ensures [P25] "numbered": numbered(ce)
ensures wf(ce) && wfBreak(ce) && unlocked(ce)

func (*competitionEngine).UpdateTable (ce, table) ()
boundedonly dispatches to every kind of table report at once (those are proved one by one)
props P26
instant
requires wf(ce) && wfBreak(ce) && wfClock(ce) && unlocked(ce) && wfTable(table) && wfHand(table) && tableKnown(ce, table) && Meta(ce).ReBuySetting.WaitingTime > 0
ensures "a report of an unknown table or after the end is ignored": !old(tableDue(ce, table)) ==> sameList(S(ce).Tables, old(S(ce).Tables)) && quietBooks(ce)
ensures "the report is copied": old(tableDue(ce, table)) && table.State.Status != pokertable.TableStateStatus_TableClosed ==> nT(ce) == old(nT(ce)) && forall(i, 0, nT(ce), old(firstAt(ce, i, table.ID)) ==> fresh(T(ce,i)) && T(ce,i) != table && T(ce,i).State != table.State && sameTable(T(ce,i), table))
ensures "other tables are not touched": old(tableDue(ce, table)) && table.State.Status != pokertable.TableStateStatus_TableClosed ==> forall(i, 0, nT(ce), !old(firstAt(ce, i, table.ID)) ==> T(ce,i) == old(S(ce).Tables)[i])
ensures "a running hand has no consequences": table.State.Status != pokertable.TableStateStatus_TableClosed && table.State.Status != pokertable.TableStateStatus_TableCreated && table.State.Status != pokertable.TableStateStatus_TablePausing && table.State.Status != pokertable.TableStateStatus_TableGameSettled ==> quietBooks(ce)
ensures "a closed table is removed": old(tableDue(ce, table)) && fits(table, pokertable.TableStateStatus_TableClosed) ==> nT(ce) == old(nT(ce)) - 1 && nc(EVS) > old(nc(EVS)) && callarg(EVS, old(nc(EVS)), 0) == CompetitionStateEvent_TableUpdated
ensures [P26 P13] "a settled hand is settled": old(tableDue(ce, table)) && fits(table, pokertable.TableStateStatus_TableGameSettled) ==> settled(ce, table) && (!old(settled(ce, table)) ==> nc(EVS) > old(nc(EVS)) && callarg(EVS, nc(EVS) - 1, 0) == CompetitionStateEvent_TableGameSettled)
ensures [P13] "but only once": old(tableDue(ce, table)) && fits(table, pokertable.TableStateStatus_TableGameSettled) && old(settled(ce, table)) ==> quietBooks(ce)
ensures [P26 P27] "a paused table is reopened when it may": old(tableDue(ce, table)) && fits(table, pokertable.TableStateStatus_TablePausing) ==> nc(SETUPG) == old(nc(SETUPG)) + ite(old(mayReopen(ce, table)), 1, 0)
ensures [P26 P15] "an idle table starts the competition when it may": old(tableDue(ce, table)) && fits(table, pokertable.TableStateStatus_TableCreated) && !ce.isStarted ==> quietBooks(ce)
ensures [P25] "numbered": numbered(ce)
ensures wf(ce) && wfBreak(ce) && unlocked(ce)
