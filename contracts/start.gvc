package pokercompetition

## ---- the blind clock of the competition is started
def immediateStop(ce) := Meta(ce).Blind.FinalBuyInLevelIndex == UnsetValue || Meta(ce).Blind.FinalBuyInLevelIndex < NoStopBuyInIndex
def bookedClock(ce) := curLevel(ce) == BL(ce).bs.Status.CurrentLevelIndex && S(ce).BlindState.FinalBuyInLevelIndex == BL(ce).bs.Status.FinalBuyInLevelIndex && forall(i, 0, len(S(ce).BlindState.EndAts), S(ce).BlindState.EndAts[i] == BL(ce).bs.Status.LevelEndAts[i])
func (*competitionEngine).activateBlind (ce) (err)
modular
requires wf(ce) && wfClock(ce)
ensures [P15] "starts the clock when it can be started": (err == nil) <==> old(startable(BL(ce)))
ensures [P15] "refused changes nothing": err != nil ==> S(ce).Status == old(S(ce).Status) && unchanged(S(ce).BlindState) && nc(EV) == old(nc(EV)) && nc(EVS) == old(nc(EVS)) && forall(i, 0, len(S(ce).BlindState.EndAts), S(ce).BlindState.EndAts[i] == old(S(ce).BlindState.EndAts)[i])
ensures [P15] "late registration opens, or buy-in is over at once": err == nil ==> S(ce).Status == ite(immediateStop(ce), CompetitionStateStatus_StoppedBuyIn, CompetitionStateStatus_DelayedBuyIn)
ensures [P15] "the competition shows the clock": err == nil ==> bookedClock(ce)
ensures [P15] "the clock runs": err == nil ==> clockStarted(ce) && !BL(ce).isEnd && startedFrom(BL(ce))
ensures [P15] "announced": err == nil ==> nc(EV) == old(nc(EV)) + 1 && nc(EVS) == old(nc(EVS)) + 1 && callarg(EVS, old(nc(EVS)), 0) == CompetitionStateEvent_BlindActivated
ensures [P25] "numbered": numbered(ce)
ensures wf(ce)
modifies CompetitionState.Status@S(ce), BlindState.CurrentLevelIndex@S(ce).BlindState, BlindState.FinalBuyInLevelIndex@S(ce).BlindState, []int64, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, pokerblind.blind.isEnd@BL(ce), pokerblind.BlindState.StartedAt@BL(ce).bs, pokerblind.BlindState.UpdatedAt@BL(ce).bs, pokerblind.BlindState.Status.CurrentLevelIndex@BL(ce).bs, log
def startedFrom(b) := let(c, b.bs.Status.CurrentLevelIndex, 0 <= c && c < len(b.bs.Meta.Levels) && b.bs.Meta.Levels[c].Level == b.bs.Meta.InitialLevel)

func (*competitionEngine).regulatorAddPlayers (ce, ids) (err)
props P15
modular
requires wf(ce) && ce.regulator != nil
ensures "exactly these players": nc(ADDP) == old(nc(ADDP)) + 1 && sameList(callarg(ADDP, old(nc(ADDP)), 0), ids) && err == callret(ADDP, old(nc(ADDP)), 0)
modifies log

func (*competitionEngine).activateRegulator (ce) ()
props P15
modular
requires wf(ce) && wfClock(ce) && ce.regulator != nil
ensures "everyone waiting is handed over": nc(ADDP) == old(nc(ADDP)) + 1 && sameList(callarg(ADDP, old(nc(ADDP)), 0), old(ce.waitingPlayers)) && len(ce.waitingPlayers) == 0
ensures "balancing runs": nc(SETSTATUS) == old(nc(SETSTATUS)) + 1 && callarg(SETSTATUS, old(nc(SETSTATUS)), 0) == regulator.CompetitionStatus_Normal && ce.isRegulatorStarted
ensures "the clock is started if it was not": old(startable(BL(ce))) ==> clockStarted(ce) && S(ce).Status == ite(immediateStop(ce), CompetitionStateStatus_StoppedBuyIn, CompetitionStateStatus_DelayedBuyIn) && bookedClock(ce)
ensures "a running clock is left alone": !old(startable(BL(ce))) ==> S(ce).Status == old(S(ce).Status) && curLevel(ce) == old(curLevel(ce)) && nc(EV) == old(nc(EV)) && nc(EVS) == old(nc(EVS))
ensures "a refusal is reported": nc(EVE) == old(nc(EVE)) + ite(old(!clockStarted(ce) && !startable(BL(ce))), 1, 0) + ite(callret(ADDP, old(nc(ADDP)), 0) != nil, 1, 0)
ensures [P25] "numbered": numbered(ce)
ensures wf(ce)
modifies competitionEngine.waitingPlayers@ce, competitionEngine.isRegulatorStarted@ce, CompetitionState.Status@S(ce), BlindState.CurrentLevelIndex@S(ce).BlindState, BlindState.FinalBuyInLevelIndex@S(ce).BlindState, []int64, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, pokerblind.blind.isEnd@BL(ce), pokerblind.BlindState.StartedAt@BL(ce).bs, pokerblind.BlindState.UpdatedAt@BL(ce).bs, pokerblind.BlindState.Status.CurrentLevelIndex@BL(ce).bs, log

## ---- start of the competition
def startRefused(ce) := ce.isStarted || ended(ce)
def wakesBalancing(ce) := isMTT(ce) && !ce.isRegulatorStarted && nP(ce) >= Meta(ce).MinPlayerCount
func (*competitionEngine).StartCompetition (ce) (at, err)
modular
requires wf(ce) && wfClock(ce)
ensures [P15] "not twice and not after the end": old(startRefused(ce)) ==> err == ErrCompetitionStartRejected && at == old(S(ce).StartAt)
ensures [P15] "refused changes nothing": old(startRefused(ce)) ==> S(ce).StartAt == old(S(ce).StartAt) && S(ce).EndAt == old(S(ce).EndAt) && ce.isStarted == old(ce.isStarted) && S(ce).Status == old(S(ce).Status) && ce.isRegulatorStarted == old(ce.isRegulatorStarted) && sameList(ce.waitingPlayers, old(ce.waitingPlayers)) && quietCall(ce) && nc("timer") == old(nc("timer")) && nc(SETSTATUS) == old(nc(SETSTATUS))
ensures [P15] "started now": !old(startRefused(ce)) ==> ce.isStarted && during(S(ce).StartAt) && at == S(ce).StartAt
ensures [P15] "end time": !old(startRefused(ce)) ==> S(ce).EndAt == ite(isCT(ce), S(ce).StartAt + Meta(ce).MaxDuration, ite(isMTT(ce), UnsetValue, old(S(ce).EndAt)))
ensures [P15 P19] "a single-table tournament ends on time": !old(startRefused(ce)) ==> nc("timer") == old(nc("timer")) + ite(isCT(ce), 1, 0) && (isCT(ce) ==> callarg("timer", old(nc("timer")), 0) == S(ce).EndAt * 1000000000)
ensures [P15] "balancing starts with enough players": !old(startRefused(ce)) ==> ce.isRegulatorStarted == (old(ce.isRegulatorStarted) || old(wakesBalancing(ce))) && nc(ADDP) == old(nc(ADDP)) + ite(old(wakesBalancing(ce)), 1, 0) && nc(SETSTATUS) == old(nc(SETSTATUS)) + ite(old(wakesBalancing(ce)), 1, 0)
ensures [P15] "with everyone who waits": !old(startRefused(ce)) && old(wakesBalancing(ce)) ==> sameList(callarg(ADDP, old(nc(ADDP)), 0), old(ce.waitingPlayers)) && len(ce.waitingPlayers) == 0
ensures [P15] "otherwise everyone keeps waiting": !old(wakesBalancing(ce)) ==> sameList(ce.waitingPlayers, old(ce.waitingPlayers)) && S(ce).Status == old(S(ce).Status)
ensures [P15] "announced": err == nil ==> nc(EV) > old(nc(EV)) && nc(EVS) > old(nc(EVS)) && callarg(EVS, nc(EVS) - 1, 0) == CompetitionStateEvent_Started
ensures [P15] "books untouched": sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P25] "numbered": numbered(ce)
ensures wf(ce)
modifies CompetitionState.StartAt@S(ce), CompetitionState.EndAt@S(ce), competitionEngine.isStarted@ce, competitionEngine.waitingPlayers@ce, competitionEngine.isRegulatorStarted@ce, CompetitionState.Status@S(ce), BlindState.CurrentLevelIndex@S(ce).BlindState, BlindState.FinalBuyInLevelIndex@S(ce).BlindState, []int64, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, pokerblind.blind.isEnd@BL(ce), pokerblind.BlindState.StartedAt@BL(ce).bs, pokerblind.BlindState.UpdatedAt@BL(ce).bs, pokerblind.BlindState.Status.CurrentLevelIndex@BL(ce).bs, log

def inHand(t) := t.State.Status == pokertable.TableStateStatus_TableGameOpened || t.State.Status == pokertable.TableStateStatus_TableGamePlaying || t.State.Status == pokertable.TableStateStatus_TableGameSettled || t.State.Status == pokertable.TableStateStatus_TableClosed
closure timeOver of (*competitionEngine).StartCompetition chan timer arg 1 captures ce:*competitionEngine params (isCancelled)
props P19
requires wf(ce)
ensures "an idle table is closed when the time is over": nc(CLOSET) == old(nc(CLOSET)) + ite(!isCancelled && !old(ended(ce)) && nT(ce) > 0 && !old(inHand(T(ce,0))), 1, 0)
ensures "that table": nc(CLOSET) > old(nc(CLOSET)) ==> callarg(CLOSET, old(nc(CLOSET)), 0) == T(ce,0).ID
ensures "an error is reported": nc(EVE) == old(nc(EVE)) + ite(nc(CLOSET) > old(nc(CLOSET)) && callret(CLOSET, old(nc(CLOSET)), 0) != nil, 1, 0)
ensures "nothing else happens": nc(EV) == old(nc(EV)) && S(ce).Status == old(S(ce).Status) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
modifies log

## ---- automatic start
def seated(ce) := sum(i, 0, nT(ce), readyCount(T(ce,i)))
def registering(ce) := S(ce).Status == CompetitionStateStatus_Registering
func (*competitionEngine).canStartCT (ce) (r)
props P15
modular
instant
requires wf(ce)
ensures "enough seated players and the time has come": r <==> registering(ce) && seated(ce) >= Meta(ce).MinPlayerCount && (S(ce).StartAt <= 0 || now() / 1000000000 >= S(ce).StartAt)
modifies nothing
loopinv @0 (?n:int) == sum(i, 0, $k, readyCount(T(ce,i)))
loopinv @1 (?n:int) == sum(i, 0, (?o:int), readyCount(T(ce,i))) + count(j, 0, $k, present(T(ce,?o:int).State.PlayerStates[j]))

func (*competitionEngine).canStartCash (ce) (r)
props P15
modular
requires wf(ce)
ensures "enough seated players": r <==> registering(ce) && seated(ce) >= Meta(ce).MinPlayerCount
modifies nothing
loopinv @0 (?n:int) == sum(i, 0, $k, readyCount(T(ce,i)))
loopinv @1 (?n:int) == sum(i, 0, (?o:int), readyCount(T(ce,i))) + count(j, 0, $k, present(T(ce,?o:int).State.PlayerStates[j]))

def canStart(ce) := registering(ce) && seated(ce) >= Meta(ce).MinPlayerCount && (isCash(ce) || isCT(ce) && (S(ce).StartAt <= 0 || now() / 1000000000 >= S(ce).StartAt))
def willStart(ce) := canStart(ce) && !ce.isStarted
func (*competitionEngine).handleCompetitionTableCreated (ce, table, idx) ()
boundedonly the proof search does not finish in the time of a check
props P15
modular
instant
requires wf(ce) && wfClock(ce)
ensures "nothing before the start condition holds": !old(canStart(ce)) ==> ce.isStarted == old(ce.isStarted) && S(ce).Status == old(S(ce).Status) && S(ce).StartAt == old(S(ce).StartAt) && quietCall(ce) && nc(EVE) == old(nc(EVE)) && nc(STARTG) == old(nc(STARTG)) && nc("timer") == old(nc("timer")) && nc(UPBLIND) == old(nc(UPBLIND))
ensures "never twice": old(canStart(ce) && ce.isStarted) ==> S(ce).Status == old(S(ce).Status) && nc(STARTG) == old(nc(STARTG)) && nc(EV) == old(nc(EV)) && nc(EVE) == old(nc(EVE)) + 1
ensures "starts once": old(willStart(ce)) ==> ce.isStarted && S(ce).StartAt == now() / 1000000000
ensures "clock, blinds and first hand": old(willStart(ce) && startable(BL(ce))) ==> clockStarted(ce) && S(ce).Status == ite(immediateStop(ce), CompetitionStateStatus_StoppedBuyIn, CompetitionStateStatus_DelayedBuyIn) && nc(UPBLIND) == old(nc(UPBLIND)) + 1 && callarg(UPBLIND, old(nc(UPBLIND)), 0) == table.ID && pushed(ce, old(nc(UPBLIND))) && nc(STARTG) == old(nc(STARTG)) + 1 && callarg(STARTG, old(nc(STARTG)), 0) == table.ID
ensures "errors are reported": old(willStart(ce) && startable(BL(ce))) ==> nc(EVE) == old(nc(EVE)) + ite(callret(UPBLIND, old(nc(UPBLIND)), 0) != nil, 1, 0) + ite(callret(STARTG, old(nc(STARTG)), 0) != nil, 1, 0)
ensures "no hand without a clock": old(willStart(ce) && !startable(BL(ce))) ==> nc(STARTG) == old(nc(STARTG)) && nc(EVE) == old(nc(EVE)) + 1
ensures "books untouched": sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P25] "numbered": numbered(ce)
ensures wf(ce)
modifies CompetitionState.StartAt@S(ce), CompetitionState.EndAt@S(ce), competitionEngine.isStarted@ce, competitionEngine.waitingPlayers@ce, competitionEngine.isRegulatorStarted@ce, CompetitionState.Status@S(ce), BlindState.CurrentLevelIndex@S(ce).BlindState, BlindState.FinalBuyInLevelIndex@S(ce).BlindState, []int64, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, pokerblind.blind.isEnd@BL(ce), pokerblind.BlindState.StartedAt@BL(ce).bs, pokerblind.BlindState.UpdatedAt@BL(ce).bs, pokerblind.BlindState.Status.CurrentLevelIndex@BL(ce).bs, log

func (*competitionEngine).UpdateCompetitionBlindInitialLevel (ce, level) (err)
props P15
requires wf(ce)
ensures "only before the start": !registering(ce) ==> err == ErrCompetitionUpdateBlindInitialLevelRejected && (BL(ce).bs != nil ==> unchanged(BL(ce).bs))
ensures "sets the first level": registering(ce) && BL(ce).bs != nil ==> err == nil && BL(ce).bs.Meta.InitialLevel == level
modifies pokerblind.BlindState.Meta.InitialLevel@BL(ce).bs

## ---- tables
chan TableManagerBackend.CreateTable
havocs $alloc
assume callret(CREATE, q, 1) == nil ==> callret(CREATE, q, 0) != nil && fresh(callret(CREATE, q, 0)) && allocated(callret(CREATE, q, 0)) && wfTab(callret(CREATE, q, 0))

def asked(ce, q, s, b) := let(a, callarg(CREATE, q, 1), a.TableID == s.TableID && sameList(a.JoinPlayers, s.JoinPlayers) && a.Blind.Level == b.Level && a.Blind.Ante == b.Ante && a.Blind.Dealer == b.Dealer && a.Blind.SB == b.SB && a.Blind.BB == b.BB)
def askedMeta(ce, q) := let(m, callarg(CREATE, q, 1).Meta, m.CompetitionID == ce.competition.ID && m.Mode == string(Meta(ce).Mode) && m.Rule == string(Meta(ce).Rule) && m.MaxDuration == Meta(ce).MaxDuration && m.TableMaxSeatCount == Meta(ce).TableMaxSeatCount && m.TableMinPlayerCount == Meta(ce).TableMinPlayerCount && m.MinChipUnit == Meta(ce).MinChipUnit && m.ActionTime == Meta(ce).ActionTime)
func (*competitionEngine).addCompetitionTable (ce, s, b) (id, err)
modular
requires wf(ce) && wfBreak(ce)
ensures [P18] "one table is asked for, with the named players and blinds": nc(CREATE) == old(nc(CREATE)) + 1 && asked(ce, old(nc(CREATE)), s, b)
ensures [P23] "by the competition's rules": askedMeta(ce, old(nc(CREATE)))
ensures [P18] "an error changes nothing": (err == callret(CREATE, old(nc(CREATE)), 1)) && (err != nil ==> nT(ce) == old(nT(ce)) && nc(EV) == old(nc(EV)) && nc(EVS) == old(nc(EVS)) && id == "" && nc("timer") == old(nc("timer")))
ensures [P18] "the new table joins the others": err == nil ==> nT(ce) == old(nT(ce)) + 1 && T(ce, old(nT(ce))) == callret(CREATE, old(nc(CREATE)), 0) && id == T(ce, old(nT(ce))).ID
ensures [P18] "the others stay": forall(i, 0, old(nT(ce)), T(ce,i) == old(S(ce).Tables)[i])
ensures [P18] "announced": err == nil ==> nc(EV) == old(nc(EV)) + 1 && nc(EVS) == old(nc(EVS)) + 1 && callarg(EVS, old(nc(EVS)), 0) == CompetitionStateEvent_TableUpdated
ensures [P17] "a table created paused in a break is resumed after it": err == nil && breaking(ce) && T(ce, old(nT(ce))).State.Status == pokertable.TableStateStatus_TablePausing ==> scheduled(ce, T(ce, old(nT(ce))).ID, curLevel(ce))
ensures [P25] "numbered": numbered(ce)
ensures wf(ce) && wfBreak(ce)
modifies CompetitionState.Tables@S(ce), []*pokertable.Table, map:string>map[int]bool@BP(ce), map:int>bool, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, log
