#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = ["competition_engine.go", "competition_engine_internal.go"]
I, H, C, S, F = "inputs", "histories", "configurations", "schedules", "fault_sequences"
P = []
def p(id, title, statement, over, text, why, files, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors={"files": files}, **kw))

NOTEST = "The 10 reliable tests cover a few actor games and the blind clock; none of them drives this operation, let alone every state it can be called in."

p("P01", "Who may buy in or re-buy is decided by the competition's rules",
  "A buy-in without chips, outside the registration and late-registration periods, to a full single-table tournament or to one without a table is refused; a re-buy is accepted only from a player who is waiting to re-buy, has no chips and has re-buys left. A refused request returns the documented error and changes nothing.",
  [I, H, C], "every competition state, mode, player list and request", NOTEST, ["competition_engine.go"])
p("P02", "An accepted buy-in or re-buy is booked exactly once and handed to a table",
  "An accepted buy-in adds exactly one player holding the redeemed chips, an accepted re-buy gives exactly that player those chips and one more re-buy, and the tournament's buy-in units grow by the bought units. All other players keep their chips and records, and the player is passed to the table, to table balancing or to the waiting queue exactly once.",
  [I, H, C, F], "every competition state, mode, player list, request and table error", NOTEST, ["competition_engine.go"])
p("P03", "An add-on is credited only when the rules allow it, and exactly once",
  "An add-on is accepted only for a known player during a level that sells add-ons (during a break if the competition says so) and while add-ons are left; it is refused otherwise and changes nothing. An accepted add-on adds exactly the redeemed chips to that player and passes exactly those chips to the table.",
  [I, H, C, F], "every competition state, mode, blind level, player list, request and table error", NOTEST, ["competition_engine.go"])
p("P04", "A refund removes exactly that player and takes back the bought units",
  "A refund is accepted only for a registered player and only before the blind clock starts. It removes exactly that player from the competition and from the waiting queue, takes the player's buy-in units off the tournament's total, and makes a single-table tournament's player leave the table; a refused refund changes nothing.",
  [I, H, C, F], "every competition state, mode, player list, queue and table error", NOTEST, ["competition_engine.go"])
p("P05", "A cash-game cash-out pays each leaving player exactly once",
  "Only a known player of a cash game can cash out; the player is paid out at once when the game is not running and otherwise at the end of the hand, after leaving the table. Each leaving player is reported exactly once and removed, and no other player is touched.",
  [I, H, C, F], "every competition state, table state, set of leaving players and table error", NOTEST, ENG)
p("P06", "Quitting is possible only in a single-table tournament before buy-in stops",
  "Quitting is refused in other modes, for unknown players and tables and once buy-in has stopped. An accepted quit asks the table to release exactly that player and only then puts the player among those waiting to re-buy; a refused one changes nothing.",
  [I, H, C, F], "every competition state, mode, player list, table list and table error", NOTEST, ["competition_engine.go"])
p("P07", "After every hand the books show the table's chips and the hand's statistics",
  "When a hand is settled every player of that table has in the competition exactly the chips the table reports and the table rank of that hand, each participant's statistics grow by what the hand reported, and winners keep their best pot and best hand. Players of other tables are not touched.",
  [I, H], "every table result and player list", NOTEST, ["competition_engine_internal.go", "rank.go"])
p("P08", "Broke players wait for a re-buy if they may, and are eliminated otherwise",
  "After a hand a player without chips is moved to waiting for a re-buy exactly when buy-in is open and re-buys are left; otherwise the player is eliminated, entered in the final standings once and reported with the right place. Players with chips are never eliminated, and when the re-buy time is over players who have not bought in leave the table.",
  [I, H, C, S], "every table result, player list, configuration and moment at which the re-buy time ends", NOTEST, ["competition_engine_internal.go", "rank.go"])
p("P09", "When buy-in stops, everyone waiting to re-buy is eliminated and the rest play on",
  "When the blind level passes the last buy-in level the competition stops buy-in exactly once; exactly the players without chips who wait for a re-buy are eliminated and entered in the standings, latest joiner lowest, and table balancing is told. Every level change reaches every table, and a competition that has ended ignores the clock.",
  [I, H, C], "every competition state and blind state", NOTEST, ["competition_engine_internal.go", "rank.go"])
p("P10", "The live leaderboard orders players by chips, re-buy waiters, then losers",
  "While a competition is open or running, players with chips are ranked 1..n by chips, earlier joiner first on a tie, followed by players waiting to re-buy, later waiters first, followed by eliminated players in reverse order of elimination. Nothing but the ranks changes.",
  [I, H], "every player list and elimination order", NOTEST, ["competition_engine_internal.go"])
p("P11", "Published player counts by status match the player list",
  "After a buy-in, re-buy, refund, settled hand, end of re-buy time or stop of buy-in, the published numbers of playing, waiting, eliminated and re-buying players equal the numbers of players in that status.",
  [I, H], "every player list", NOTEST, ["competition_engine_internal.go"])
p("P12", "A competition ends once, with complete final standings",
  "Closing a running competition appends every player with chips to the standings, best last-man first, below them the eliminated players in reverse order of elimination, and gives every player the place in that list; the end is announced once, the clock is stopped and every table is released. A closed competition cannot be closed again and never leaves its final state.",
  [I, H], "every competition state and end reason", NOTEST, ENG + ["rank.go"])
p("P13", "A hand is settled at most once, whatever repeats",
  "However often and in whatever order the table reports the end of the same hand, its results are booked once: a repeated report changes nothing.",
  [H, S], "every sequence of table updates", NOTEST, ["competition_engine_internal.go"])
p("P14", "Table ranking orders the hand's participants by chips",
  "The ranking of a table lists every player of the table once with the chips the table reports; participants of the hand are ranked 1..n by chips, earlier joiner first on a tie, everyone else has rank 0.",
  [I], "every table and player list", NOTEST, ["rank.go"])
p("P15", "A competition starts at most once and only under its start conditions",
  "A competition that has started or ended cannot be started. A single-table or cash competition starts by itself exactly when enough seated players with chips are present and, if a start time is set, that time has come; a multi-table tournament activates table balancing only when started with enough players.",
  [I, H, C], "every competition state, table state and configuration", NOTEST, ENG + ["regulator.go"])
p("P16", "Tables always get the blinds of the current level",
  "Whenever blinds are pushed to a table or a table is created for balancing, level, ante, blinds and the dealer's ante are those of the current level of the competition's blind structure.",
  [I, C], "every blind structure, level and table", NOTEST, ENG + ["competition.go"])
p("P17", "A table paused for a break resumes once, after the break",
  "For each table and break one resume is scheduled for the end of that break; when it fires a table of a running competition with enough players is opened exactly once, and nothing happens for an ended competition or an already resumed table. Outside a break nothing is scheduled.",
  [I, H, S], "every competition state, table state, break and moment", NOTEST, ["competition_engine_internal.go"])
p("P18", "Table balancing moves exactly the players it decides, with all their chips",
  "After each hand of a multi-table tournament broke players and the released players leave the table, newly assigned players with chips join it with exactly their chips, released players wait for a seat and seated newcomers are playing; an emptied table is closed. New tables and assignments get exactly the named players with exactly their chips, and players without chips are never seated.",
  [I, H, F], "every table result, player list, decision of the balancer and table error", NOTEST, ["competition_engine_internal.go", "regulator.go"])
p("P19", "A competition is closed exactly when its end condition holds",
  "After a hand a single-table tournament is closed when its time is over or buy-in has stopped and too few players have chips, a cash game when its time is over, and a multi-table tournament when one player is left on the last table after buy-in stopped or the advancement condition is met on every table. Otherwise it goes on.",
  [I, H, C], "every competition state, table result, configuration and time", NOTEST, ["competition_engine_internal.go"])
p("P20", "The manager routes every request to the named competition and to no other",
  "Every request to the manager that names an unknown competition is refused with the not-found error; for a known one exactly that competition's engine is called once with the request's arguments and its answer is returned. Released and closed competitions are forgotten.",
  [I, H], "every set of competitions and request", NOTEST, ["manager.go"])
p("P21", "The built-in table backend passes every request to the table manager unchanged",
  "Each backend request results in exactly one call of the table manager with the same table and players, and its error is returned; table events reach the engine.",
  [I, F], "every request and error", NOTEST, ["native_table_manager_backend.go"])
p("P22", "No operation leaves the competition locked",
  "Every public operation and every timer callback releases the competition's lock on every path, so that later operations cannot hang, and never waits for a lock it already holds.",
  [I, H, S, F], "every competition state, request and table error", NOTEST, ENG)
p("P23", "Creating a competition checks its settings and starts empty and open",
  "Settings with a start or end time in the past or more players than seats are refused. A created competition is registering, has the given settings, no players, no ranking, no statistics and one table per table setting (single-table and cash modes), and is started and closed automatically at its times only if it is still waiting.",
  [I, C, F], "every setting and table error", NOTEST, ENG + ["competition_settings.go"])
p("P24", "Advancement is set up once, when buy-in stops, by the configured rule",
  "Only a multi-table tournament with an advancement rule sets up advancement, once, when buy-in stops; the player-count rule asks for the number of advancing players with the total buy-ins. Tables are then paused by the rule and counted once each.",
  [I, H, C], "every competition state and rule", NOTEST, ["competition_engine_internal.go"])
p("P25", "Published competition updates are numbered without gaps",
  "Every published competition update carries a serial number exactly one higher than the previous one and the time of the update, and shows the competition itself.",
  [H], "every sequence of operations", NOTEST, ["event.go"])
p("P26", "Table updates reach exactly the competition's own tables",
  "An update of a table that does not belong to the competition, or that arrives after its end, changes nothing; otherwise the competition shows the new table state in place of the old one and all other tables are unchanged. A closed table is removed and the competition ends with its last table.",
  [I, H], "every competition and table update", NOTEST, ENG)
p("P27", "A hand is opened with exactly the present players who have chips",
  "Whenever the competition asks a table to open a hand it names exactly the players who are present and have chips, and the hand's number follows the last one. A paused table is reopened only outside breaks and with enough such players, and in a single-table tournament or cash game accordingly while it still runs.",
  [I, H], "every competition state, table state, blind state and player list", NOTEST, ["competition_engine_internal.go"])
p("B01", "The blind clock follows its structure",
  "The clock starts once, at the configured level, and every level from there ends its duration after the previous one; it moves one level at a time, never past the last level, and not at all after it is stopped. An unlimited level never ends by itself.",
  [I, H, S, C], "every blind structure, start level and sequence of timers", "The clock's eight tests run a few fixed structures for a few seconds; they cannot enumerate structures, start levels and timer histories.", ["blind/blind.go", "blind/state.go"])

MECH = {
 "P01": "PlayerBuyIn", "P02": "PlayerBuyIn", "P03": "PlayerAddon", "P04": "PlayerRefund",
 "P05": "PlayerCashOut handleCashOut", "P06": "PlayerQuit",
 "P07": "updatePlayerCompetitionTableRecords settleCompetitionTable",
 "P08": "handleReBuy handleTableKnockoutPlayers",
 "P09": "initBlind", "P10": "refreshPlayerCompetitionRanks", "P11": "refreshPlayerStatusStatistics",
 "P12": "CloseCompetition settleCompetition updatePlayerFinalRankings", "P13": "settleCompetitionTable",
 "P14": "GetParticipatedPlayerTableRankingData", "P15": "StartCompetition canStartCT canStartCash",
 "P16": "updateTableBlind CurrentBlindData", "P17": "handleBreaking",
 "P18": "handleMTTTableSettlementNextStep regulatorCreateAndDistributePlayers regulatorDistributePlayers",
 "P19": "settleCompetitionTable shouldCloseCTCompetition shouldCloseCashCompetition",
 "P20": "manager", "P21": "nativeTableManagerBackend", "P22": "competitionEngine.mu", "P23": "CreateCompetition",
 "P24": "initAdvancement", "P25": "emitEvent", "P26": "UpdateTable closeCompetitionTable", "B01": "blind.Start levelEnd", "P27": "generateAliveParticipants updatePauseCompetition",
}
exec(open(os.path.join(V, "tools", "claims.py")).read())  # CLAIMED, OPEN_REASON

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        q["anchors"]["mechanism"] = [{"name": m, "where": q["anchors"]["files"][0]} for m in MECH[q["id"]].split()]
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")

TECH = "contract-based deductive verification: govc turns the Go source of each run into verification conditions, discharged by Z3"
m = {"version": 1,
     "setup_cmd": "bash -c '. /opt/vp/env.sh && cd govc && go build -o /dev/null .'",
     "hooks": {"guard": "none", "enable": "no hooks: contracts live in /verif/contracts and the source of /repo is verified as it is", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "Known findings and repaired defects: KNOWN_FINDINGS.txt. Contracts: contracts/*.gvc. Verifier: govc/."}
for q in P:
    i = q["id"]
    if i in CLAIMED:
        lvl, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i + " thorough",
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": lvl, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": OPEN_REASON.get(i, "contracts for the functions it depends on are not finished")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
