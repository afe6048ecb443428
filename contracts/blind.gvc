package pokerblind

def blindok(b) := b != nil && b.stateUpdater != nil && b.errorUpdater != nil &&
   (b.bs != nil ==> len(b.bs.Status.LevelEndAts) == len(b.bs.Meta.Levels) && -1 <= b.bs.Status.CurrentLevelIndex && b.bs.Status.CurrentLevelIndex < len(b.bs.Meta.Levels))

func (*blind).ApplyOptions (b, options) (res)
props B01
requires b != nil && options != nil
ensures "returned state installed": res != nil && res == b.bs && fresh(res) && b.options == options
ensures "identity copied": res.BlindID == options.ID && res.Meta.InitialLevel == options.InitialLevel && res.Meta.FinalBuyInLevelIndex == options.FinalBuyInLevelIndex && sameList(res.Meta.Levels, options.Levels)
ensures "final buy-in index copied": res.Status.FinalBuyInLevelIndex == options.FinalBuyInLevelIndex
ensures "not running": res.Status.CurrentLevelIndex == -1 && res.StartedAt == -1
ensures "end times unset": len(res.Status.LevelEndAts) == len(options.Levels) && forall(i, 0, len(options.Levels), res.Status.LevelEndAts[i] == -1)
ensures "timestamps": res.CreatedAt == now()/1000000000 && res.UpdatedAt == now()/1000000000
modifies blind.options@b, blind.bs@b
loopinv len(?a:[]int64) == $k
loopinv forall(i, 0, $k, (?a:[]int64)[i] == -1)

func (*blind).UpdateInitialLevel (b, level) (err)
props B01
requires b != nil
ensures "needs a state": b.bs == nil ==> err == ErrBlindNoState
ensures "level set": b.bs != nil ==> err == nil && b.bs.Meta.InitialLevel == level && unchangedExcept(b.bs, "Meta")
modifies BlindState.Meta.InitialLevel@b.bs

func (*blind).IsStarted (b) (r)
props B01
requires b != nil
ensures "started iff a start time is set": r <==> (b.bs != nil && b.bs.StartedAt != -1)
modifies nothing

func (*blind).End (b) ()
props B01
requires b != nil
ensures "ended": b.isEnd
modifies blind.isEnd@b

def LV(b, i) := b.bs.Meta.Levels[i]
def GOCH := "go.pokerblind.(*blind).updateLevel"
def startable(b) := (b.bs == nil || b.bs.StartedAt == -1) && b.options != nil && exists(i, 0, len(b.bs.Meta.Levels), LV(b,i).Level == b.bs.Meta.InitialLevel)

func (*blind).Start (b) (res, err)
props B01
requires blindok(b) && (b.options != nil ==> b.bs != nil)
requires forall(i, 0, len(b.bs.Meta.Levels), LV(b,i).Duration >= -1)
ensures "double start rejected": old(b.bs != nil && b.bs.StartedAt != -1) ==> err == ErrBlindAlreadyStarted
ensures "needs options": old((b.bs == nil || b.bs.StartedAt == -1) && b.options == nil) ==> err == ErrBlindNoOptions
ensures "refused start changes nothing": err != nil ==> res == nil && b.isEnd == old(b.isEnd) && (b.bs != nil ==> unchanged(b.bs)) && ncalls(GOCH) == old(ncalls(GOCH)) && ncalls("cb.stateUpdater") == old(ncalls("cb.stateUpdater"))
ensures "accepted when startable": (err == nil) <==> old(startable(b))
ensures "started now": err == nil ==> res == b.bs && !b.isEnd && b.bs.StartedAt >= old(now())/1000000000 && b.bs.StartedAt <= now()/1000000000
ensures "starts at the initial level": err == nil ==> let(c, b.bs.Status.CurrentLevelIndex, 0 <= c && c < len(b.bs.Meta.Levels) && LV(b,c).Level == b.bs.Meta.InitialLevel)
ensures "schedule accumulates durations": err == nil ==> let(c, b.bs.Status.CurrentLevelIndex, forall(i, c, len(b.bs.Meta.Levels), b.bs.Status.LevelEndAts[i] ==
    ite(LV(b,i).Duration == -1, -1, ite(i == c, b.bs.StartedAt, b.bs.Status.LevelEndAts[i-1]) + LV(b,i).Duration)))
ensures "earlier levels keep their end time": err == nil ==> forall(i, 0, b.bs.Status.CurrentLevelIndex, b.bs.Status.LevelEndAts[i] == old(b.bs.Status.LevelEndAts)[i])
ensures "one timer per timed level": err == nil ==> ncalls(GOCH) == old(ncalls(GOCH)) + count(j, b.bs.Status.CurrentLevelIndex, len(b.bs.Meta.Levels), LV(b,j).Duration > 0)
ensures "timer at the level's end": err == nil ==> let(c, b.bs.Status.CurrentLevelIndex, forall(i, c, len(b.bs.Meta.Levels), LV(b,i).Duration > 0 ==>
    callarg(GOCH, old(ncalls(GOCH)) + count(j, c, i, LV(b,j).Duration > 0), 1) == b.bs.Status.LevelEndAts[i] && callarg(GOCH, old(ncalls(GOCH)) + count(j, c, i, LV(b,j).Duration > 0), 0) == b))
ensures "one event per zero-length level": err == nil ==> ncalls("cb.stateUpdater") == old(ncalls("cb.stateUpdater")) + count(j, b.bs.Status.CurrentLevelIndex, len(b.bs.Meta.Levels), LV(b,j).Duration == 0)
ensures blindok(b)
modifies blind.isEnd@b, BlindState.StartedAt@b.bs, BlindState.UpdatedAt@b.bs, BlindState.Status.CurrentLevelIndex@b.bs, []int64, log
loopinv (?x:int) == -1 || (0 <= ?x:int && ?x:int < len(b.bs.Meta.Levels) && LV(b, ?x:int).Level == b.bs.Meta.InitialLevel)
loopinv (?x:int) == -1 ==> forall(i, 0, $k, LV(b,i).Level != b.bs.Meta.InitialLevel)
loopinv b.bs.Status.CurrentLevelIndex <= $i
loopinv let(c, b.bs.Status.CurrentLevelIndex, forall(i, c, $i, b.bs.Status.LevelEndAts[i] ==
    ite(LV(b,i).Duration == -1, -1, ite(i == c, b.bs.StartedAt, b.bs.Status.LevelEndAts[i-1]) + LV(b,i).Duration)))
loopinv forall(i, 0, b.bs.Status.CurrentLevelIndex, b.bs.Status.LevelEndAts[i] == old(b.bs.Status.LevelEndAts)[i])
loopinv ncalls(GOCH) == old(ncalls(GOCH)) + count(j, b.bs.Status.CurrentLevelIndex, $i, LV(b,j).Duration > 0)
loopinv ncalls("cb.stateUpdater") == old(ncalls("cb.stateUpdater")) + count(j, b.bs.Status.CurrentLevelIndex, $i, LV(b,j).Duration == 0)
loopinv let(c, b.bs.Status.CurrentLevelIndex, forall(i, c, $i, LV(b,i).Duration > 0 ==>
    callarg(GOCH, old(ncalls(GOCH)) + count(j, c, i, LV(b,j).Duration > 0), 1) == b.bs.Status.LevelEndAts[i] && callarg(GOCH, old(ncalls(GOCH)) + count(j, c, i, LV(b,j).Duration > 0), 0) == b))

closure blind.levelEnd of (*blind).updateLevel chan timer arg 1 captures b:*blind params (isCancelled)
props B01
requires blindok(b) && b.bs != nil
ensures "cancelled or ended clock does nothing": isCancelled || old(b.isEnd) ==> unchanged(b.bs) && ncalls("cb.stateUpdater") == old(ncalls("cb.stateUpdater"))
ensures "moves to the next level": !isCancelled && !old(b.isEnd) && old(b.bs.Status.CurrentLevelIndex) + 1 < len(b.bs.Meta.Levels) ==> b.bs.Status.CurrentLevelIndex == old(b.bs.Status.CurrentLevelIndex) + 1 && ncalls("cb.stateUpdater") == old(ncalls("cb.stateUpdater")) + 1 && callarg("cb.stateUpdater", old(ncalls("cb.stateUpdater")), 0) == b.bs
ensures "stays on the last level": old(b.bs.Status.CurrentLevelIndex) + 1 >= len(b.bs.Meta.Levels) ==> unchanged(b.bs) && ncalls("cb.stateUpdater") == old(ncalls("cb.stateUpdater"))
ensures blindok(b)
modifies BlindState.Status.CurrentLevelIndex@b.bs, BlindState.UpdatedAt@b.bs, log

func (*blind).updateLevel (b, endAt) ()
props B01
requires blindok(b) && b.bs != nil
ensures "timer set for the level end": ncalls("timer") == old(ncalls("timer")) + 1 && callarg("timer", old(ncalls("timer")), 0) == endAt * 1000000000
modifies log
