package pokercompetition

## ---- the built-in table backend
def managed() := ncalls("Manager.CreateTable") + ncalls("Manager.PauseTable") + ncalls("Manager.CloseTable") + ncalls("Manager.StartTableGame") + ncalls("Manager.SetUpTableGame") + ncalls("Manager.UpdateBlind")
   + ncalls("Manager.UpdateTablePlayers") + ncalls("Manager.PlayerReserve") + ncalls("Manager.PlayerJoin") + ncalls("Manager.PlayerRedeemChips") + ncalls("Manager.PlayersLeave") + ncalls("Manager.ReleaseTable")
def sameListeners(n) := n.manager == old(n.manager) && n.onTableUpdated == old(n.onTableUpdated) && n.onTablePlayerReserved == old(n.onTablePlayerReserved) && n.onReadyOpenFirstTableGame == old(n.onReadyOpenFirstTableGame)
def samePS(a, b) := a.PlayerID == b.PlayerID && a.Bankroll == b.Bankroll && a.Seat == b.Seat && a.IsIn == b.IsIn && a.IsParticipated == b.IsParticipated

func (*nativeTableManagerBackend).PauseTable (n, tableID) (err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.PauseTable") == old(ncalls("Manager.PauseTable")) + 1 && callrecv("Manager.PauseTable", old(ncalls("Manager.PauseTable"))) == n.manager
ensures [P21] "same request": callarg("Manager.PauseTable", old(ncalls("Manager.PauseTable")), 0) == tableID
ensures [P21] "its answer": err == callret("Manager.PauseTable", old(ncalls("Manager.PauseTable")), 0)
modifies log

func (*nativeTableManagerBackend).CloseTable (n, tableID) (err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.CloseTable") == old(ncalls("Manager.CloseTable")) + 1 && callrecv("Manager.CloseTable", old(ncalls("Manager.CloseTable"))) == n.manager
ensures [P21] "same request": callarg("Manager.CloseTable", old(ncalls("Manager.CloseTable")), 0) == tableID
ensures [P21] "its answer": err == callret("Manager.CloseTable", old(ncalls("Manager.CloseTable")), 0)
modifies log

func (*nativeTableManagerBackend).StartTableGame (n, tableID) (err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.StartTableGame") == old(ncalls("Manager.StartTableGame")) + 1 && callrecv("Manager.StartTableGame", old(ncalls("Manager.StartTableGame"))) == n.manager
ensures [P21] "same request": callarg("Manager.StartTableGame", old(ncalls("Manager.StartTableGame")), 0) == tableID
ensures [P21] "its answer": err == callret("Manager.StartTableGame", old(ncalls("Manager.StartTableGame")), 0)
modifies log

func (*nativeTableManagerBackend).SetUpTableGame (n, tableID, gameCount, participants) (err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.SetUpTableGame") == old(ncalls("Manager.SetUpTableGame")) + 1 && callrecv("Manager.SetUpTableGame", old(ncalls("Manager.SetUpTableGame"))) == n.manager
ensures [P21] "same request": callarg("Manager.SetUpTableGame", old(ncalls("Manager.SetUpTableGame")), 0) == tableID && callarg("Manager.SetUpTableGame", old(ncalls("Manager.SetUpTableGame")), 1) == gameCount && (participants != nil ==> forallv(x, string, has(callarg("Manager.SetUpTableGame", old(ncalls("Manager.SetUpTableGame")), 2), x) == has(participants, x) && (has(participants, x) ==> callarg("Manager.SetUpTableGame", old(ncalls("Manager.SetUpTableGame")), 2)[x] == participants[x])))
ensures [P21] "its answer": err == callret("Manager.SetUpTableGame", old(ncalls("Manager.SetUpTableGame")), 0)
modifies log

func (*nativeTableManagerBackend).UpdateBlind (n, tableID, level, ante, dealer, sb, bb) (err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.UpdateBlind") == old(ncalls("Manager.UpdateBlind")) + 1 && callrecv("Manager.UpdateBlind", old(ncalls("Manager.UpdateBlind"))) == n.manager
ensures [P21] "same request": callarg("Manager.UpdateBlind", old(ncalls("Manager.UpdateBlind")), 0) == tableID && callarg("Manager.UpdateBlind", old(ncalls("Manager.UpdateBlind")), 1) == level && callarg("Manager.UpdateBlind", old(ncalls("Manager.UpdateBlind")), 2) == ante && callarg("Manager.UpdateBlind", old(ncalls("Manager.UpdateBlind")), 3) == dealer && callarg("Manager.UpdateBlind", old(ncalls("Manager.UpdateBlind")), 4) == sb && callarg("Manager.UpdateBlind", old(ncalls("Manager.UpdateBlind")), 5) == bb
ensures [P21] "its answer": err == callret("Manager.UpdateBlind", old(ncalls("Manager.UpdateBlind")), 0)
modifies log

func (*nativeTableManagerBackend).UpdateTablePlayers (n, tableID, joinPlayers, leavePlayerIDs) (seats, err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.UpdateTablePlayers") == old(ncalls("Manager.UpdateTablePlayers")) + 1 && callrecv("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers"))) == n.manager
ensures [P21] "same request": callarg("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers")), 0) == tableID && len(callarg("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers")), 1)) == len(joinPlayers) && forall(x, 0, len(joinPlayers), callarg("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers")), 1)[x].PlayerID == joinPlayers[x].PlayerID && callarg("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers")), 1)[x].RedeemChips == joinPlayers[x].RedeemChips && callarg("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers")), 1)[x].Seat == joinPlayers[x].Seat) && len(callarg("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers")), 2)) == len(leavePlayerIDs) && forall(x, 0, len(leavePlayerIDs), callarg("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers")), 2)[x] == leavePlayerIDs[x])
ensures [P21] "its answer": err == callret("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers")), 1) && (seats != nil ==> forallv(x, string, has(seats, x) == has(callret("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers")), 0), x) && (has(seats, x) ==> seats[x] == callret("Manager.UpdateTablePlayers", old(ncalls("Manager.UpdateTablePlayers")), 0)[x])))
modifies log

func (*nativeTableManagerBackend).PlayerReserve (n, tableID, joinPlayer) (err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.PlayerReserve") == old(ncalls("Manager.PlayerReserve")) + 1 && callrecv("Manager.PlayerReserve", old(ncalls("Manager.PlayerReserve"))) == n.manager
ensures [P21] "same request": callarg("Manager.PlayerReserve", old(ncalls("Manager.PlayerReserve")), 0) == tableID && callarg("Manager.PlayerReserve", old(ncalls("Manager.PlayerReserve")), 1).PlayerID == joinPlayer.PlayerID && callarg("Manager.PlayerReserve", old(ncalls("Manager.PlayerReserve")), 1).RedeemChips == joinPlayer.RedeemChips && callarg("Manager.PlayerReserve", old(ncalls("Manager.PlayerReserve")), 1).Seat == joinPlayer.Seat
ensures [P21] "its answer": err == callret("Manager.PlayerReserve", old(ncalls("Manager.PlayerReserve")), 0)
modifies log

func (*nativeTableManagerBackend).PlayerJoin (n, tableID, playerID) (err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.PlayerJoin") == old(ncalls("Manager.PlayerJoin")) + 1 && callrecv("Manager.PlayerJoin", old(ncalls("Manager.PlayerJoin"))) == n.manager
ensures [P21] "same request": callarg("Manager.PlayerJoin", old(ncalls("Manager.PlayerJoin")), 0) == tableID && callarg("Manager.PlayerJoin", old(ncalls("Manager.PlayerJoin")), 1) == playerID
ensures [P21] "its answer": err == callret("Manager.PlayerJoin", old(ncalls("Manager.PlayerJoin")), 0)
modifies log

func (*nativeTableManagerBackend).PlayerRedeemChips (n, tableID, joinPlayer) (err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.PlayerRedeemChips") == old(ncalls("Manager.PlayerRedeemChips")) + 1 && callrecv("Manager.PlayerRedeemChips", old(ncalls("Manager.PlayerRedeemChips"))) == n.manager
ensures [P21] "same request": callarg("Manager.PlayerRedeemChips", old(ncalls("Manager.PlayerRedeemChips")), 0) == tableID && callarg("Manager.PlayerRedeemChips", old(ncalls("Manager.PlayerRedeemChips")), 1).PlayerID == joinPlayer.PlayerID && callarg("Manager.PlayerRedeemChips", old(ncalls("Manager.PlayerRedeemChips")), 1).RedeemChips == joinPlayer.RedeemChips && callarg("Manager.PlayerRedeemChips", old(ncalls("Manager.PlayerRedeemChips")), 1).Seat == joinPlayer.Seat
ensures [P21] "its answer": err == callret("Manager.PlayerRedeemChips", old(ncalls("Manager.PlayerRedeemChips")), 0)
modifies log

func (*nativeTableManagerBackend).PlayersLeave (n, tableID, playerIDs) (err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.PlayersLeave") == old(ncalls("Manager.PlayersLeave")) + 1 && callrecv("Manager.PlayersLeave", old(ncalls("Manager.PlayersLeave"))) == n.manager
ensures [P21] "same request": callarg("Manager.PlayersLeave", old(ncalls("Manager.PlayersLeave")), 0) == tableID && len(callarg("Manager.PlayersLeave", old(ncalls("Manager.PlayersLeave")), 1)) == len(playerIDs) && forall(x, 0, len(playerIDs), callarg("Manager.PlayersLeave", old(ncalls("Manager.PlayersLeave")), 1)[x] == playerIDs[x])
ensures [P21] "its answer": err == callret("Manager.PlayersLeave", old(ncalls("Manager.PlayersLeave")), 0)
modifies log

func (*nativeTableManagerBackend).ReleaseTable (n, tableID) (err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.ReleaseTable") == old(ncalls("Manager.ReleaseTable")) + 1 && callrecv("Manager.ReleaseTable", old(ncalls("Manager.ReleaseTable"))) == n.manager
ensures [P21] "same request": callarg("Manager.ReleaseTable", old(ncalls("Manager.ReleaseTable")), 0) == tableID
ensures [P21] "its answer": err == callret("Manager.ReleaseTable", old(ncalls("Manager.ReleaseTable")), 0)
modifies log

func (*nativeTableManagerBackend).CreateTable (n, options, setting) (table, err)
requires n != nil && n.manager != nil
ensures [P21] "one request to the manager": managed() == old(managed()) + 1 && ncalls("Manager.CreateTable") == old(ncalls("Manager.CreateTable")) + 1 && callrecv("Manager.CreateTable", old(ncalls("Manager.CreateTable"))) == n.manager
ensures [P21] "same request": callarg("Manager.CreateTable", old(ncalls("Manager.CreateTable")), 0) == options && sameVal(callarg("Manager.CreateTable", old(ncalls("Manager.CreateTable")), 2), setting)
ensures [P21] "its answer": err == callret("Manager.CreateTable", old(ncalls("Manager.CreateTable")), 1) && table == ite(err == nil, callret("Manager.CreateTable", old(ncalls("Manager.CreateTable")), 0), nil)
ensures [P21] "listening to the table": callarg("Manager.CreateTable", old(ncalls("Manager.CreateTable")), 1) != nil && callarg("Manager.CreateTable", old(ncalls("Manager.CreateTable")), 1).OnTableUpdated != nil && callarg("Manager.CreateTable", old(ncalls("Manager.CreateTable")), 1).OnTablePlayerReserved != nil && callarg("Manager.CreateTable", old(ncalls("Manager.CreateTable")), 1).OnReadyOpenFirstTableGame != nil
modifies log

func (*nativeTableManagerBackend).UpdateTable (n, table) ()
requires n != nil && n.onTableUpdated != nil
ensures [P21] "handed to the listener": ncalls("cb.onTableUpdated") == old(ncalls("cb.onTableUpdated")) + 1 && callarg("cb.onTableUpdated", old(ncalls("cb.onTableUpdated")), 0) == table && managed() == old(managed())
modifies log

func (*nativeTableManagerBackend).OnTableUpdated (n, fn) ()
requires n != nil
ensures [P21] "the listener from now on": n.onTableUpdated == fn
modifies nativeTableManagerBackend.onTableUpdated@n

func (*nativeTableManagerBackend).OnTablePlayerReserved (n, fn) ()
requires n != nil
ensures [P21] "the listener from now on": n.onTablePlayerReserved == fn
modifies nativeTableManagerBackend.onTablePlayerReserved@n

func (*nativeTableManagerBackend).OnReadyOpenFirstTableGame (n, fn) ()
requires n != nil
ensures [P21] "the listener from now on": n.onReadyOpenFirstTableGame == fn
modifies nativeTableManagerBackend.onReadyOpenFirstTableGame@n

## what the table reports reaches the listener as an equal copy
closure tableReported of (*nativeTableManagerBackend).CreateTable chan field.OnTableUpdated arg 0 captures n:*nativeTableManagerBackend params (t)
requires n != nil && n.onTableUpdated != nil && t != nil && t.State != nil
ensures [P21] "at most once": ncalls("cb.onTableUpdated") <= old(ncalls("cb.onTableUpdated")) + 1
ensures [P21 bounded] "reported": ncalls("cb.onTableUpdated") == old(ncalls("cb.onTableUpdated")) + 1
ensures [P21] "an equal copy": ncalls("cb.onTableUpdated") > old(ncalls("cb.onTableUpdated")) ==> sameTable(callarg("cb.onTableUpdated", old(ncalls("cb.onTableUpdated")), 0), t)
modifies log

closure seatReported of (*nativeTableManagerBackend).CreateTable chan field.OnTablePlayerReserved arg 0 captures n:*nativeTableManagerBackend params (competitionID, tableID, playerState)
requires n != nil && n.onTablePlayerReserved != nil && playerState != nil
ensures [P21] "at most once": ncalls("cb.onTablePlayerReserved") <= old(ncalls("cb.onTablePlayerReserved")) + 1
ensures [P21 bounded] "reported": ncalls("cb.onTablePlayerReserved") == old(ncalls("cb.onTablePlayerReserved")) + 1
ensures [P21] "the table and an equal copy": ncalls("cb.onTablePlayerReserved") > old(ncalls("cb.onTablePlayerReserved")) ==> callarg("cb.onTablePlayerReserved", old(ncalls("cb.onTablePlayerReserved")), 0) == tableID && samePS(callarg("cb.onTablePlayerReserved", old(ncalls("cb.onTablePlayerReserved")), 1), playerState)
modifies log

closure readyReported of (*nativeTableManagerBackend).CreateTable chan field.OnReadyOpenFirstTableGame arg 0 captures n:*nativeTableManagerBackend params (competitionID, tableID, gameCount, playerStates)
requires n != nil && n.onReadyOpenFirstTableGame != nil && forall(i, 0, len(playerStates), playerStates[i] != nil)
ensures [P21] "at most once": ncalls("cb.onReadyOpenFirstTableGame") <= old(ncalls("cb.onReadyOpenFirstTableGame")) + 1
ensures [P21 bounded] "reported": ncalls("cb.onReadyOpenFirstTableGame") == old(ncalls("cb.onReadyOpenFirstTableGame")) + 1
ensures [P21] "the table, the hand and equal copies": ncalls("cb.onReadyOpenFirstTableGame") > old(ncalls("cb.onReadyOpenFirstTableGame")) ==> callarg("cb.onReadyOpenFirstTableGame", old(ncalls("cb.onReadyOpenFirstTableGame")), 0) == tableID && callarg("cb.onReadyOpenFirstTableGame", old(ncalls("cb.onReadyOpenFirstTableGame")), 1) == gameCount && len(callarg("cb.onReadyOpenFirstTableGame", old(ncalls("cb.onReadyOpenFirstTableGame")), 2)) == len(playerStates) && forall(i, 0, len(playerStates), samePS(callarg("cb.onReadyOpenFirstTableGame", old(ncalls("cb.onReadyOpenFirstTableGame")), 2)[i], playerStates[i]))
modifies log
