package pokercompetition

def S(ce) := ce.competition.State
def P(ce, i) := ce.competition.State.Players[i]
def nP(ce) := len(ce.competition.State.Players)
def T(ce, i) := ce.competition.State.Tables[i]
def nT(ce) := len(ce.competition.State.Tables)
def R(ce, i) := ce.competition.State.Rankings[i]
def nR(ce) := len(ce.competition.State.Rankings)
def Meta(ce) := ce.competition.Meta
def isCT(ce) := ce.competition.Meta.Mode == CompetitionMode_CT
def isMTT(ce) := ce.competition.Meta.Mode == CompetitionMode_MTT
def isCash(ce) := ce.competition.Meta.Mode == CompetitionMode_Cash
def ended(ce) := S(ce).Status == CompetitionStateStatus_End || S(ce).Status == CompetitionStateStatus_AutoEnd || S(ce).Status == CompetitionStateStatus_ForceEnd
def openForBuyIn(ce) := S(ce).Status == CompetitionStateStatus_Registering || S(ce).Status == CompetitionStateStatus_DelayedBuyIn
def hasPlayer(ce, id) := exists(i, 0, nP(ce), P(ce,i).PlayerID == id)
def hasTable(ce, id) := exists(i, 0, nT(ce), T(ce,i).ID == id)
def stopBuyIn(ce) := S(ce).BlindState.FinalBuyInLevelIndex != NoStopBuyInIndex && (S(ce).BlindState.FinalBuyInLevelIndex == UnsetValue || S(ce).BlindState.CurrentLevelIndex > S(ce).BlindState.FinalBuyInLevelIndex)
def curLevel(ce) := S(ce).BlindState.CurrentLevelIndex
def breaking(ce) := curLevel(ce) >= 0 && ce.competition.Meta.Blind.Levels[curLevel(ce)].Level == -1
def byStatus(ce, st) := count(j, 0, nP(ce), P(ce,j).Status == st)
def statsFresh(ce) := S(ce).Statistic.PlayingPlayerCount == byStatus(ce, CompetitionPlayerStatus_Playing)
   && S(ce).Statistic.WaitingTableBalancingPlayerCount == byStatus(ce, CompetitionPlayerStatus_WaitingTableBalancing)
   && S(ce).Statistic.KnockoutPlayerCount == byStatus(ce, CompetitionPlayerStatus_Knockout)
   && S(ce).Statistic.ReBuyWaitingPlayerCount == byStatus(ce, CompetitionPlayerStatus_ReBuyWaiting)

## ---- well-formed engine
def wfCallbacks(ce) := ce.onCompetitionUpdated != nil && ce.onCompetitionErrorUpdated != nil && ce.onCompetitionPlayerUpdated != nil
   && ce.onCompetitionFinalPlayerRankUpdated != nil && ce.onCompetitionStateUpdated != nil && ce.onAdvancePlayerCountUpdated != nil
   && ce.onCompetitionPlayerCashOut != nil && ce.onTableCreated != nil && ce.tableManagerBackend != nil && ce.blind != nil
def wfState(ce) := ce.competition != nil && S(ce) != nil && S(ce).BlindState != nil && S(ce).AdvanceState != nil && S(ce).Statistic != nil
   && -1 <= curLevel(ce) && curLevel(ce) < len(ce.competition.Meta.Blind.Levels)
   && len(S(ce).BlindState.EndAts) == len(ce.competition.Meta.Blind.Levels)
def wfPlayers(ce) := forall(i, 0, nP(ce), allocated(P(ce,i))) && forall(i, 0, nP(ce), forall(j, 0, nP(ce), i != j ==> P(ce,i) != P(ce,j) && P(ce,i).PlayerID != P(ce,j).PlayerID))
def wfTab(t) := t.State != nil && forall(k, 0, len(t.State.PlayerStates), t.State.PlayerStates[k] != nil)
def wfTable(t) := t != nil && wfTab(t)
def wfTables(ce) := forall(i, 0, nT(ce), wfTable(T(ce,i)))
def wf(ce) := ce != nil && wfState(ce) && wfCallbacks(ce) && wfPlayers(ce) && wfTables(ce) && forall(i, 0, nR(ce), allocated(R(ce,i))) && (isMTT(ce) ==> ce.regulator != nil)
def unlocked(ce) := locked(ce.mu) == 0

## ---- event channels
def EV := "cb.onCompetitionUpdated"
def EVS := "cb.onCompetitionStateUpdated"
def EVP := "cb.onCompetitionPlayerUpdated"
def EVE := "cb.onCompetitionErrorUpdated"
def EVR := "cb.onCompetitionFinalPlayerRankUpdated"
def EVC := "cb.onCompetitionPlayerCashOut"
def RESERVE := "TableManagerBackend.PlayerReserve"
def REDEEM := "TableManagerBackend.PlayerRedeemChips"
def LEAVE := "TableManagerBackend.PlayersLeave"
def CREATE := "TableManagerBackend.CreateTable"
def CLOSET := "TableManagerBackend.CloseTable"
def RELEASE := "TableManagerBackend.ReleaseTable"
def STARTG := "TableManagerBackend.StartTableGame"
def SETUPG := "TableManagerBackend.SetUpTableGame"
def UPBLIND := "TableManagerBackend.UpdateBlind"
def UPPLAYERS := "TableManagerBackend.UpdateTablePlayers"
def PAUSET := "TableManagerBackend.PauseTable"
def ADDP := "Regulator.AddPlayers"
def nc(ch) := ncalls(ch)

## ---- the blind clock of an engine
def BL(ce) := as(ce.blind, *pokerblind.blind)
def clockStarted(ce) := BL(ce).bs != nil && BL(ce).bs.StartedAt != -1
## a clock that can be started by the engine: same levels as the competition, no level of length zero
def wfClock(ce) := blindok(BL(ce)) && (BL(ce).options != nil ==> BL(ce).bs != nil)
   && (BL(ce).bs != nil ==> len(BL(ce).bs.Meta.Levels) == len(Meta(ce).Blind.Levels) && forall(i, 0, len(BL(ce).bs.Meta.Levels), BL(ce).bs.Meta.Levels[i].Duration == -1 || BL(ce).bs.Meta.Levels[i].Duration > 0))
## a time (in seconds) within the call
def during(x) := old(now()) / 1000000000 <= x && x <= now() / 1000000000
