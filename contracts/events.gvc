package pokercompetition

func (*competitionEngine).emitEvent (ce, eventName, playerID) ()
props P25
requires wf(ce)
ensures "published once": nc(EV) == old(nc(EV)) + 1 && callarg(EV, old(nc(EV)), 0) == ce.competition
ensures "next serial number": ce.competition.UpdateSerial == old(ce.competition.UpdateSerial) + 1
ensures "time of the update": ce.competition.UpdateAt == now() / 1000000000
modifies Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, log

func (*competitionEngine).emitErrorEvent (ce, eventName, playerID, err) ()
props P25
requires wf(ce)
ensures "errors are reported and not numbered": nc(EVE) == old(nc(EVE)) + 1 && callarg(EVE, old(nc(EVE)), 0) == ce.competition && callarg(EVE, old(nc(EVE)), 1) == err && nc(EV) == old(nc(EV))
modifies log

func (*competitionEngine).emitPlayerEvent (ce, eventName, player) ()
props P25
requires wf(ce) && player != nil
ensures "player updates name the competition": nc(EVP) == old(nc(EVP)) + 1 && callarg(EVP, old(nc(EVP)), 0) == ce.competition.ID && callarg(EVP, old(nc(EVP)), 1) == player && nc(EV) == old(nc(EV))
modifies log

func (*competitionEngine).emitCompetitionStateFinalPlayerRankEvent (ce, playerID, rank) ()
props P25
requires wf(ce)
ensures "rank reports name competition, player and rank": nc(EVR) == old(nc(EVR)) + 1 && callarg(EVR, old(nc(EVR)), 0) == ce.competition.ID && callarg(EVR, old(nc(EVR)), 1) == playerID && callarg(EVR, old(nc(EVR)), 2) == rank && nc(EV) == old(nc(EV))
modifies log

func (*competitionEngine).emitCompetitionStateEvent (ce, eventName) ()
props P25
requires wf(ce)
ensures "state events show the competition": nc(EVS) == old(nc(EVS)) + 1 && callarg(EVS, old(nc(EVS)), 0) == eventName && callarg(EVS, old(nc(EVS)), 1) == ce.competition && nc(EV) == old(nc(EV))
modifies log
