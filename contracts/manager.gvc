package pokercompetition

## ---- the manager: which competition a request reaches
def known(m, id) := has(m.competitionEngines, id)
def eng(m, id) := syncval(m.competitionEngines, id)
## every request an engine can receive from the manager
def askedAll() := ncalls("CompetitionEngine.UpdateCompetitionBlindInitialLevel") + ncalls("CompetitionEngine.CloseCompetition") + ncalls("CompetitionEngine.StartCompetition") + ncalls("CompetitionEngine.UpdateTable")
   + ncalls("CompetitionEngine.UpdateReserveTablePlayerState") + ncalls("CompetitionEngine.AutoGameOpenEnd") + ncalls("CompetitionEngine.ReadyFirstTableGame") + ncalls("CompetitionEngine.PlayerBuyIn")
   + ncalls("CompetitionEngine.PlayerAddon") + ncalls("CompetitionEngine.PlayerRefund") + ncalls("CompetitionEngine.PlayerCashOut") + ncalls("CompetitionEngine.PlayerQuit") + ncalls("CompetitionEngine.CreateCompetition")
def books(m) := forallv(id, string, known(m, id) ==> eng(m, id) != nil)
def sameBook(m) := forallv(id, string, known(m, id) == old(known(m, id)) && (known(m, id) ==> eng(m, id) == old(eng(m, id))))
def bookWithout(m, x) := forallv(id, string, known(m, id) == (id != x && old(known(m, id))) && (known(m, id) ==> eng(m, id) == old(eng(m, id))))

func (*manager).UpdateCompetitionBlindInitialLevel (m, competitionID, level) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.UpdateCompetitionBlindInitialLevel") == old(ncalls("CompetitionEngine.UpdateCompetitionBlindInitialLevel")) + 1 && callrecv("CompetitionEngine.UpdateCompetitionBlindInitialLevel", old(ncalls("CompetitionEngine.UpdateCompetitionBlindInitialLevel"))) == eng(m, competitionID)
ensures [P20] "same request": known(m, competitionID) ==> callarg("CompetitionEngine.UpdateCompetitionBlindInitialLevel", old(ncalls("CompetitionEngine.UpdateCompetitionBlindInitialLevel")), 0) == level
ensures [P20] "its answer": known(m, competitionID) ==> err == callret("CompetitionEngine.UpdateCompetitionBlindInitialLevel", old(ncalls("CompetitionEngine.UpdateCompetitionBlindInitialLevel")), 0)
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).UpdateTable (m, competitionID, table) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.UpdateTable") == old(ncalls("CompetitionEngine.UpdateTable")) + 1 && callrecv("CompetitionEngine.UpdateTable", old(ncalls("CompetitionEngine.UpdateTable"))) == eng(m, competitionID)
ensures [P20] "same request": known(m, competitionID) ==> callarg("CompetitionEngine.UpdateTable", old(ncalls("CompetitionEngine.UpdateTable")), 0) == table
ensures [P20] "its answer": known(m, competitionID) ==> err == nil
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).UpdateReserveTablePlayerState (m, competitionID, tableID, playerState) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.UpdateReserveTablePlayerState") == old(ncalls("CompetitionEngine.UpdateReserveTablePlayerState")) + 1 && callrecv("CompetitionEngine.UpdateReserveTablePlayerState", old(ncalls("CompetitionEngine.UpdateReserveTablePlayerState"))) == eng(m, competitionID)
ensures [P20] "same request": known(m, competitionID) ==> callarg("CompetitionEngine.UpdateReserveTablePlayerState", old(ncalls("CompetitionEngine.UpdateReserveTablePlayerState")), 0) == tableID && callarg("CompetitionEngine.UpdateReserveTablePlayerState", old(ncalls("CompetitionEngine.UpdateReserveTablePlayerState")), 1) == playerState
ensures [P20] "its answer": known(m, competitionID) ==> err == nil
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).AutoGameOpenEnd (m, competitionID, tableID) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.AutoGameOpenEnd") == old(ncalls("CompetitionEngine.AutoGameOpenEnd")) + 1 && callrecv("CompetitionEngine.AutoGameOpenEnd", old(ncalls("CompetitionEngine.AutoGameOpenEnd"))) == eng(m, competitionID)
ensures [P20] "same request": known(m, competitionID) ==> callarg("CompetitionEngine.AutoGameOpenEnd", old(ncalls("CompetitionEngine.AutoGameOpenEnd")), 0) == tableID
ensures [P20] "its answer": known(m, competitionID) ==> err == callret("CompetitionEngine.AutoGameOpenEnd", old(ncalls("CompetitionEngine.AutoGameOpenEnd")), 0)
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).ReadyFirstTableGame (m, competitionID, tableID, gameCount, players) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.ReadyFirstTableGame") == old(ncalls("CompetitionEngine.ReadyFirstTableGame")) + 1 && callrecv("CompetitionEngine.ReadyFirstTableGame", old(ncalls("CompetitionEngine.ReadyFirstTableGame"))) == eng(m, competitionID)
ensures [P20] "same request": known(m, competitionID) ==> callarg("CompetitionEngine.ReadyFirstTableGame", old(ncalls("CompetitionEngine.ReadyFirstTableGame")), 0) == tableID && callarg("CompetitionEngine.ReadyFirstTableGame", old(ncalls("CompetitionEngine.ReadyFirstTableGame")), 1) == gameCount && len(callarg("CompetitionEngine.ReadyFirstTableGame", old(ncalls("CompetitionEngine.ReadyFirstTableGame")), 2)) == len(players) && forall(k, 0, len(players), callarg("CompetitionEngine.ReadyFirstTableGame", old(ncalls("CompetitionEngine.ReadyFirstTableGame")), 2)[k] == players[k])
ensures [P20] "its answer": known(m, competitionID) ==> err == callret("CompetitionEngine.ReadyFirstTableGame", old(ncalls("CompetitionEngine.ReadyFirstTableGame")), 0)
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).PlayerBuyIn (m, competitionID, joinPlayer) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.PlayerBuyIn") == old(ncalls("CompetitionEngine.PlayerBuyIn")) + 1 && callrecv("CompetitionEngine.PlayerBuyIn", old(ncalls("CompetitionEngine.PlayerBuyIn"))) == eng(m, competitionID)
ensures [P20] "same request": known(m, competitionID) ==> callarg("CompetitionEngine.PlayerBuyIn", old(ncalls("CompetitionEngine.PlayerBuyIn")), 0).PlayerID == joinPlayer.PlayerID && callarg("CompetitionEngine.PlayerBuyIn", old(ncalls("CompetitionEngine.PlayerBuyIn")), 0).RedeemChips == joinPlayer.RedeemChips
ensures [P20] "its answer": known(m, competitionID) ==> err == callret("CompetitionEngine.PlayerBuyIn", old(ncalls("CompetitionEngine.PlayerBuyIn")), 0)
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).PlayerAddon (m, competitionID, tableID, joinPlayer) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.PlayerAddon") == old(ncalls("CompetitionEngine.PlayerAddon")) + 1 && callrecv("CompetitionEngine.PlayerAddon", old(ncalls("CompetitionEngine.PlayerAddon"))) == eng(m, competitionID)
ensures [P20] "same request": known(m, competitionID) ==> callarg("CompetitionEngine.PlayerAddon", old(ncalls("CompetitionEngine.PlayerAddon")), 0) == tableID && callarg("CompetitionEngine.PlayerAddon", old(ncalls("CompetitionEngine.PlayerAddon")), 1).PlayerID == joinPlayer.PlayerID && callarg("CompetitionEngine.PlayerAddon", old(ncalls("CompetitionEngine.PlayerAddon")), 1).RedeemChips == joinPlayer.RedeemChips
ensures [P20] "its answer": known(m, competitionID) ==> err == callret("CompetitionEngine.PlayerAddon", old(ncalls("CompetitionEngine.PlayerAddon")), 0)
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).PlayerRefund (m, competitionID, playerID) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.PlayerRefund") == old(ncalls("CompetitionEngine.PlayerRefund")) + 1 && callrecv("CompetitionEngine.PlayerRefund", old(ncalls("CompetitionEngine.PlayerRefund"))) == eng(m, competitionID)
ensures [P20] "same request": known(m, competitionID) ==> callarg("CompetitionEngine.PlayerRefund", old(ncalls("CompetitionEngine.PlayerRefund")), 0) == playerID
ensures [P20] "its answer": known(m, competitionID) ==> err == callret("CompetitionEngine.PlayerRefund", old(ncalls("CompetitionEngine.PlayerRefund")), 0)
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).PlayerCashOut (m, competitionID, tableID, playerID) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.PlayerCashOut") == old(ncalls("CompetitionEngine.PlayerCashOut")) + 1 && callrecv("CompetitionEngine.PlayerCashOut", old(ncalls("CompetitionEngine.PlayerCashOut"))) == eng(m, competitionID)
ensures [P20] "same request": known(m, competitionID) ==> callarg("CompetitionEngine.PlayerCashOut", old(ncalls("CompetitionEngine.PlayerCashOut")), 0) == tableID && callarg("CompetitionEngine.PlayerCashOut", old(ncalls("CompetitionEngine.PlayerCashOut")), 1) == playerID
ensures [P20] "its answer": known(m, competitionID) ==> err == callret("CompetitionEngine.PlayerCashOut", old(ncalls("CompetitionEngine.PlayerCashOut")), 0)
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).PlayerQuit (m, competitionID, tableID, playerID) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.PlayerQuit") == old(ncalls("CompetitionEngine.PlayerQuit")) + 1 && callrecv("CompetitionEngine.PlayerQuit", old(ncalls("CompetitionEngine.PlayerQuit"))) == eng(m, competitionID)
ensures [P20] "same request": known(m, competitionID) ==> callarg("CompetitionEngine.PlayerQuit", old(ncalls("CompetitionEngine.PlayerQuit")), 0) == tableID && callarg("CompetitionEngine.PlayerQuit", old(ncalls("CompetitionEngine.PlayerQuit")), 1) == playerID
ensures [P20] "its answer": known(m, competitionID) ==> err == callret("CompetitionEngine.PlayerQuit", old(ncalls("CompetitionEngine.PlayerQuit")), 0)
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).StartCompetition (m, competitionID) (at, err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll())
ensures [P20] "that engine, once": known(m, competitionID) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.StartCompetition") == old(ncalls("CompetitionEngine.StartCompetition")) + 1 && callrecv("CompetitionEngine.StartCompetition", old(ncalls("CompetitionEngine.StartCompetition"))) == eng(m, competitionID)
ensures [P20] "its answer": known(m, competitionID) ==> at == callret("CompetitionEngine.StartCompetition", old(ncalls("CompetitionEngine.StartCompetition")), 0) && err == callret("CompetitionEngine.StartCompetition", old(ncalls("CompetitionEngine.StartCompetition")), 1)
ensures [P20] "books stay": sameBook(m)
modifies log

func (*manager).CloseCompetition (m, competitionID, endStatus) (err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !old(known(m, competitionID)) ==> err == ErrManagerCompetitionNotFound && askedAll() == old(askedAll()) && sameBook(m)
ensures [P20] "that engine, once": old(known(m, competitionID)) ==> askedAll() == old(askedAll()) + 1 && ncalls("CompetitionEngine.CloseCompetition") == old(ncalls("CompetitionEngine.CloseCompetition")) + 1 && callrecv("CompetitionEngine.CloseCompetition", old(ncalls("CompetitionEngine.CloseCompetition"))) == old(eng(m, competitionID)) && callarg("CompetitionEngine.CloseCompetition", old(ncalls("CompetitionEngine.CloseCompetition")), 0) == endStatus
ensures [P20] "its answer": old(known(m, competitionID)) ==> err == callret("CompetitionEngine.CloseCompetition", old(ncalls("CompetitionEngine.CloseCompetition")), 0)
ensures [P20] "forgotten once closed": old(known(m, competitionID)) && err == nil ==> bookWithout(m, competitionID)
ensures [P20] "kept if it could not be closed": err != nil ==> sameBook(m)
modifies manager.competitionEngines@m, log

func (*manager).ReleaseCompetition (m, competitionID) ()
requires m != nil && books(m)
ensures [P20] "forgotten, the others stay": bookWithout(m, competitionID)
ensures [P20] "no engine asked": askedAll() == old(askedAll())
modifies manager.competitionEngines@m, log

func (*manager).GetCompetitionEngine (m, competitionID) (ce, err)
requires m != nil && books(m)
ensures [P20] "unknown competition": !known(m, competitionID) ==> err == ErrManagerCompetitionNotFound && ce == nil
ensures [P20] "the one stored": known(m, competitionID) ==> err == nil && ce == eng(m, competitionID)
modifies log

func (*manager).GetTableEngineOptions (m) (o)
requires m != nil && books(m)
ensures [P20] "the options in force": o == m.tableOptions
modifies log

func (*manager).SetTableEngineOptions (m, tableOptions) ()
requires m != nil && books(m)
ensures [P20] "in force from now on": m.tableOptions == tableOptions
ensures [P20] "books stay": sameBook(m)
modifies manager.tableOptions@m, log

func (*manager).CreateCompetition (m, competitionSetting, options) (competition, err)
boundedonly the body builds an engine from functional options and creates the competition in it; the proof search does not finish in the time of a check
instant
gen 80% competitionSetting.StartAt := ite(rnd(0, 2) == 0, -1, now() / 1000000000 + rnd(0, 100))
gen 80% competitionSetting.DisableAt := now() / 1000000000 + rnd(0, 300)
gen 80% competitionSetting.Meta.TableMaxSeatCount := 9
requires m.tableManagerBackend != nil && options.OnCompetitionUpdated != nil && options.OnCompetitionErrorUpdated != nil && options.OnCompetitionPlayerUpdated != nil && options.OnCompetitionFinalPlayerRankUpdated != nil && options.OnCompetitionStateUpdated != nil && options.OnAdvancePlayerCountUpdated != nil && options.OnCompetitionPlayerCashOut != nil
requires m != nil && options != nil && books(m)
ensures [P20] "refused: nothing is remembered": err != nil ==> competition == nil && sameBook(m)
ensures [P20] "remembered under its own name": err == nil ==> competition != nil && known(m, competition.ID) && fresh(eng(m, competition.ID))
ensures [P20] "announced to the given listener": err == nil ==> ncalls("cb.OnCompetitionUpdated") >= old(ncalls("cb.OnCompetitionUpdated")) + 1
ensures [P20] "the other competitions stay": err == nil ==> forallv(id, string, id != competition.ID ==> known(m, id) == old(known(m, id)) && (known(m, id) ==> eng(m, id) == old(eng(m, id))))
ensures [P20] "no other engine asked": askedAll() == old(askedAll())
modifies manager.competitionEngines@m, log

func (*manager).Reset (m) ()
requires m != nil && books(m)
boundedonly sync.Map.Range is not supported by the verifier
ensures [P20] "every competition is forgotten": forallv(id, string, !known(m, id))
ensures [P20] "each was told to end, once, and nothing else": forallv(id, string, old(known(m, id)) ==> exists(i, old(ncalls("CompetitionEngine.CloseCompetition")), ncalls("CompetitionEngine.CloseCompetition"), callrecv("CompetitionEngine.CloseCompetition", i) == old(eng(m, id)) && callarg("CompetitionEngine.CloseCompetition", i, 0) == CompetitionStateStatus_ForceEnd)) && ncalls("CompetitionEngine.CloseCompetition") - old(ncalls("CompetitionEngine.CloseCompetition")) == askedAll() - old(askedAll())
modifies manager.competitionEngines@m, log
