package pokercompetition

def addonOK(ce, jp) := jp.RedeemChips > 0 && hasPlayer(ce, jp.PlayerID) && (Meta(ce).AddonSetting.IsBreakOnly ==> breaking(ce))
   && curLevel(ce) >= 0 && Meta(ce).Blind.Levels[curLevel(ce)].AllowAddon

func (*competitionEngine).PlayerAddon (ce, tableID, jp) (err)
requires wf(ce) && unlocked(ce)
ensures [P03] "no chips": jp.RedeemChips <= 0 ==> err == ErrCompetitionNoRedeemChips
ensures [P03] "not eligible": jp.RedeemChips > 0 && !old(addonOK(ce, jp)) ==> err == ErrCompetitionAddonRejected
ensures [P03] "limit": forall(i, 0, nP(ce), old(addonOK(ce, jp)) && P(ce,i).PlayerID == jp.PlayerID && old(P(ce,i).AddonTimes) >= Meta(ce).AddonSetting.MaxTime ==> err == ErrCompetitionExceedAddonLimit && P(ce,i).AddonTimes == old(P(ce,i).AddonTimes))
ensures [P03] "accepted add-on credited": forall(i, 0, nP(ce), old(addonOK(ce, jp)) && P(ce,i).PlayerID == jp.PlayerID && old(P(ce,i).AddonTimes) < Meta(ce).AddonSetting.MaxTime ==>
   err == callret(REDEEM, old(nc(REDEEM)), 0) && P(ce,i).Chips == old(P(ce,i).Chips) + jp.RedeemChips && P(ce,i).AddonTimes == old(P(ce,i).AddonTimes) + 1
   && P(ce,i).TotalRedeemChips == old(P(ce,i).TotalRedeemChips) + jp.RedeemChips && P(ce,i).CurrentTableID == tableID
   && S(ce).Statistic.TotalAddonCount == old(S(ce).Statistic.TotalAddonCount) + ite(isCash(ce) || !isCT(ce) && !isMTT(ce), 0, jp.Unit)
   && nc(REDEEM) == old(nc(REDEEM)) + 1 && callarg(REDEEM, old(nc(REDEEM)), 0) == tableID
   && callarg(REDEEM, old(nc(REDEEM)), 1).PlayerID == jp.PlayerID && callarg(REDEEM, old(nc(REDEEM)), 1).RedeemChips == jp.RedeemChips)
ensures [P03] "others untouched": nP(ce) == old(nP(ce)) && forall(i, 0, nP(ce), P(ce,i) == old(S(ce).Players)[i] && (P(ce,i).PlayerID != jp.PlayerID ==> unchangedExcept(P(ce,i), "CompetitionRank")))
ensures [P03] "rejected changes nothing": (jp.RedeemChips <= 0 || !old(addonOK(ce, jp))) ==> nc(REDEEM) == old(nc(REDEEM)) && nc(EV) == old(nc(EV)) && unchanged(S(ce).Statistic) && forall(i, 0, nP(ce), unchanged(P(ce,i)))
ensures [P22] "mutex released": unlocked(ce)
ensures wf(ce)
modifies CompetitionPlayer.CurrentTableID, CompetitionPlayer.Chips, CompetitionPlayer.AddonTimes, CompetitionPlayer.TotalRedeemChips, CompetitionPlayer.CompetitionRank, Statistic.TotalAddonCount@S(ce).Statistic, Competition.UpdateAt@ce.competition, Competition.UpdateSerial@ce.competition, log
