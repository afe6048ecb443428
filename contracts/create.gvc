package pokercompetition

## ---- creation of a competition
def fitsTable(s) := forall(k, 0, len(s.TableSettings), len(s.TableSettings[k].JoinPlayers) <= s.Meta.TableMaxSeatCount)
def validSetting(s) := (s.StartAt == UnsetValue || s.StartAt >= now() / 1000000000) && s.DisableAt >= now() / 1000000000 && fitsTable(s)
def opensTables(s) := s.Meta.Mode == CompetitionMode_CT || s.Meta.Mode == CompetitionMode_Cash
def noBlindsYet(a) := a.Blind.Level == 0 && a.Blind.Ante == -1 && a.Blind.Dealer == -1 && a.Blind.SB == -1 && a.Blind.BB == -1
func (*competitionEngine).CreateCompetition (ce, s) (res, err)
boundedonly the proof search does not finish in the time of a check
props P23
instant
gen 80% s.StartAt := ite(rnd(0, 2) == 0, -1, now() / 1000000000 + rnd(0, 100))
gen 80% s.DisableAt := now() / 1000000000 + rnd(0, 300)
gen 80% s.Meta.TableMaxSeatCount := 9
requires ce != nil && ce.blind != nil && BL(ce) != nil && wfCallbacks(ce) && wfBreak(ce)
ensures "impossible settings are refused": !validSetting(s) ==> res == nil && err == ErrCompetitionInvalidCreateSetting && ce.competition == old(ce.competition) && nc(CREATE) == old(nc(CREATE)) && nc("timer") == old(nc("timer")) && nc(EV) == old(nc(EV))
ensures "what is accepted is open for registration": err == nil ==> validSetting(s) && res == ce.competition && fresh(res) && S(ce).Status == CompetitionStateStatus_Registering && nP(ce) == 0 && nR(ce) == 0
ensures "by the given rules": err == nil ==> res.ID == s.CompetitionID && sameVal(res.Meta, s.Meta) && S(ce).StartAt == s.StartAt && S(ce).DisableAt == s.DisableAt && S(ce).EndAt == UnsetValue && S(ce).OpenAt == now() / 1000000000
ensures "nothing has happened yet": err == nil ==> curLevel(ce) == UnsetValue && S(ce).BlindState.FinalBuyInLevelIndex == s.Meta.Blind.FinalBuyInLevelIndex && len(S(ce).BlindState.EndAts) == len(s.Meta.Blind.Levels) && S(ce).AdvanceState.Status == CompetitionAdvanceStatus_NotStart && S(ce).Statistic.TotalBuyInCount == 0
ensures "one table per table setting": opensTables(s) && err == nil ==> nT(ce) == len(s.TableSettings) && nc(CREATE) == old(nc(CREATE)) + len(s.TableSettings) && forall(k, 0, len(s.TableSettings), callarg(CREATE, old(nc(CREATE)) + k, 1).TableID == s.TableSettings[k].TableID && sameList(callarg(CREATE, old(nc(CREATE)) + k, 1).JoinPlayers, s.TableSettings[k].JoinPlayers))
ensures "no blinds before the start": opensTables(s) && err == nil ==> forall(k, 0, len(s.TableSettings), noBlindsYet(callarg(CREATE, old(nc(CREATE)) + k, 1)))
ensures "balancing opens the tables of a multi-table tournament": !opensTables(s) ==> nc(CREATE) == old(nc(CREATE)) && (err == nil ==> nT(ce) == 0)
ensures "with balancing in place": s.Meta.Mode == CompetitionMode_MTT && err == nil ==> ce.regulator != nil
ensures "start and end of registration are timed": err == nil ==> nc("timer") == old(nc("timer")) + ite(s.StartAt > 0, 2, 1) && callarg("timer", nc("timer") - 1, 0) == s.DisableAt * 1000000000 && (s.StartAt > 0 ==> callarg("timer", old(nc("timer")), 0) == s.StartAt * 1000000000)
ensures "announced": err == nil ==> nc(EV) == old(nc(EV)) + 1 + nT(ce)
ensures "a failure is passed on": err != nil ==> res == nil
ensures "the clock waits with the given levels": validSetting(s) ==> BL(ce).bs != nil && BL(ce).bs.StartedAt == -1 && takesLevels(BL(ce), s.Meta)
loopinv nT(ce) == $k
loopinv nc(CREATE) == pre(nc(CREATE)) + $k
loopinv nc(EV) == pre(nc(EV)) + $k
loopinv nc("timer") == pre(nc("timer"))
loopinv forall(k, 0, $k, callarg(CREATE, pre(nc(CREATE)) + k, 1).TableID == s.TableSettings[k].TableID && sameList(callarg(CREATE, pre(nc(CREATE)) + k, 1).JoinPlayers, s.TableSettings[k].JoinPlayers))
loopinv forall(k, 0, $k, noBlindsYet(callarg(CREATE, pre(nc(CREATE)) + k, 1)))
loopinv len(?e:[]int64) == $k
loopinv wf(ce) && wfBreak(ce)
loopinv forall(k, 0, $k, len(s.TableSettings[k].JoinPlayers) <= s.Meta.TableMaxSeatCount)

## the two timers set at creation: automatic start and the end of registration
closure registrationOver of (*competitionEngine).CreateCompetition chan timer arg 1 captures ce:*competitionEngine params (isCancelled)
props P23
requires wf(ce) && wfClock(ce) && wfBreak(ce)
ensures "only an open registration is touched": isCancelled || !old(registering(ce)) ==> S(ce).Status == old(S(ce).Status) && quietCall(ce) && nc(EVR) == old(nc(EVR)) && ce.isStarted == old(ce.isStarted) && S(ce).StartAt == old(S(ce).StartAt) && nc("timer") == old(nc("timer")) && nc(SETSTATUS) == old(nc(SETSTATUS))
ensures [P23 bounded] "a competition with enough players is not closed": old(nP(ce)) >= Meta(ce).MinPlayerCount ==> nc(RELEASE) == old(nc(RELEASE)) && S(ce).Status != CompetitionStateStatus_AutoEnd || old(ended(ce))
ensures "one without is started or closed": !isCancelled && old(registering(ce)) && old(nP(ce)) < Meta(ce).MinPlayerCount ==> S(ce).Status == CompetitionStateStatus_AutoEnd || ce.isStarted
ensures "books untouched": sameList(S(ce).Players, old(S(ce).Players)) && forall(i, 0, nP(ce), unchangedExcept(P(ce,i), "CompetitionRank"))
ensures [P25] "numbered": numbered(ce)
ensures [P23 bounded] "well-formed": wf(ce)
