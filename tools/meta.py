"""Property texts; writes properties.jsonl and MANIFEST.json (run: python3-vt tools/meta.py)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
MC, DP = "reliabilityassessment/monte_carlo/", "reliabilityassessment/data_processing/"
P = []


def prop(id, title, statement, over, text, why, mech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, note=note, na=na))


TRUST = (
    "Trusted: the symbolic interpreter of /verif/engine (each counterexample is replayed on the real code and sample "
    "inputs of every explored case are run on both sides and compared), z3, exact reals instead of floating point. "
)

prop(
    "C01", "Event queue: events come out in time order, none lost, none duplicated",
    "Whatever sequence of schedulings and removals the simulation performs, the queue holds exactly the scheduled and not yet "
    "removed events. Each removal returns the earliest one with the attributes it was scheduled with. The reported number of "
    "queued events is always right, and freed slots are reusable, so a queue never leaks capacity.",
    ["histories", "inputs"], "every history of insertions and removals up to a bounded length, with arbitrary event times (ties included) and attributes",
    "Tests replay two fixed histories; a link error shows only for particular orders and ties of times.",
    [("insertion into the linked event list", MC + "filem.py:filem"), ("removal of the earliest event", MC + "remove.py:remove"), ("list initialisation", MC + "initfl.py:initfl")],
    "All times and attributes symbolic, history length bounded.",
)
prop(
    "C02", "Calendar: every event at its time, with the state of its season and week",
    "Draws happen at every collection step, planned outages change every week, ratings change at every season end and statistics are taken at every year end, "
    "in time order and until convergence or the configured end, whatever season ends are configured. Each draw sees the ratings of its season and the outages of its week. "
    "Every routine receives the prepared data under its own name and what one event leaves behind is what the next one starts from; all statistics start at zero.",
    ["histories", "configurations"], "every order and time of pending events, every season split, every end of simulation and stop flag",
    "Tests call each routine once with fixed arguments; mixed-up arguments among 150, off-by-one weeks or a season split other than 13/26/39 never show.",
    [("main loop", MC + "contrl.py:contrl"), ("dispatch", MC + "events.py:events"), ("periodic events", MC + "week.py, " + MC + "quartr.py:quartr"),
     ("initial calendar", MC + "initl.py:initl"), ("wiring", MC + "narpMain.py:narpMain")],
    "Event times, end, season ends and ratings symbolic.",
)
prop(
    "C03", "Random states follow the configured probabilities",
    "Every random draw lies in [0, 1) and is a function of the seed only, so a run is repeatable from its seed. For every draw, a "
    "unit is fully available, derated to its configured fraction, or out, and a line is in the state whose cumulative probability "
    "band contains the draw; units on planned maintenance have no capacity and the available capacity is rating times state times maintenance.",
    ["inputs", "configurations"], "every draw value, every cumulative probability table, rating, derating and maintenance state",
    "Tests use fixed seeds; a wrong band edge or a draw equal to one is hit with negligible probability.",
    [("unit states", MC + "gstate.py:gstate"), ("line states", MC + "lstate.py:lstate"), ("seeds", MC + "seeder.py:seeder"), ("line states, other variant", MC + "line_prob_sampling.py")],
    "All draws, tables and ratings symbolic; the integer generator recurrence is encoded exactly.",
)
prop(
    "C04", "Unit capacity is credited to areas by location and ownership",
    "For every available capacity vector the capacity physically located in an area, the capacity it owns and the capacity it may count "
    "on are the sums of its units' capacities under the configured location and ownership shares. The transfers implied by joint "
    "ownership are exactly the difference between owned and located capacity, so they cancel over all areas when shares sum to one.",
    ["inputs", "configurations"], "every availability vector and ownership table",
    "Tests use one availability vector with mostly whole-unit ownership.",
    [("capacity sums", MC + "sumcap.py:sumcap")],
    "All capacities and shares symbolic.",
)
prop(
    "C07", "Network admittance matrix, its reduction and inverse describe the lines",
    "The admittance matrix is the sum of all line contributions, parallel and reversed lines included. Removing the reference area keeps "
    "exactly the other areas, in an order the node table reports, and the impedance matrix is the inverse of what remains. Adding or "
    "removing one line updates the matrix as rebuilding it would.",
    ["inputs", "configurations"], "every network topology within bounds, every line admittance and reference area",
    "Tests use one or two networks with equal admittances, where mixed-up rows or lost parallel lines do not show.",
    [("assembly", MC + "admitb.py:admitb"), ("reference removal", MC + "admitr.py:admitr"), ("network set-up", MC + "tm1.py:tm1"), ("updates", MC + "admitm.py, " + MC + "admref.py")],
    "All admittances symbolic.",
)
prop(
    "C08", "One-line impedance updates equal a full rebuild",
    "When a branch is added between two areas, or between an area and the reference, with any impedance (negative to remove one), the "
    "updated impedance matrix is the inverse of the admittance matrix with that branch included. The matrix passed in is not altered.",
    ["inputs"], "every symmetric impedance matrix, branch position and branch impedance that leaves the network solvable",
    "Tests compare one stored matrix; sign or index mistakes that vanish for equal admittances stay hidden.",
    [("branch between areas", MC + "ximpa.py:ximpa"), ("branch to the reference", MC + "ximpar.py:ximpar")],
    "Matrix entries and branch impedance symbolic.",
)
prop(
    "C09", "DC flows follow angle differences and conserve power in every area",
    "Angles are the impedance matrix applied to the injections, put back into the areas' own order with the reference at zero. Every line's flow is its "
    "admittance times the angle difference in its own direction, and the flows at each area add up to its net exchange; over all areas the exchanges cancel.",
    ["inputs", "configurations"], "every network within bounds, all injections and admittances, every node order and reference",
    "Tests use one network in natural order; a permutation or direction mistake is invisible there.",
    [("angles", MC + "theta.py:theta"), ("reordering", MC + "thetac.py:thetac"), ("flows", MC + "flo.py:flo")],
    "All injections and admittances symbolic.",
)
prop(
    "C10", "Balancing surplus and shortage before transmission",
    "For any net positions the balanced injections sum to zero and no area changes from giving to receiving. If surplus suffices every shortage is "
    "met and surpluses are used in proportion; otherwise, without loss sharing the areas in shortage are curtailed in proportion to their "
    "shortage, and with loss sharing all areas are curtailed in proportion to load.",
    ["inputs", "configurations"], "every vector of net positions and loads, every node order, both sharing modes",
    "Tests cover one surplus and one shortage vector; zero and exactly balanced positions and other node orders are untested.",
    [("balancing", MC + "assign.py:assign"), ("other variant", MC + "assign.py:_assign")],
    "All positions and loads symbolic.",
)
prop(
    "C11", "Matrix inversion and products used by the linear program are exact",
    "For every non-singular matrix the factorisation-based inverse times the matrix is the identity, whatever pivoting it needs. The simplex "
    "multiplier, reduced-cost and column products are the exact matrix-vector products for every tableau.",
    ["inputs"], "every matrix up to the bounded size, every pivot order",
    "Tests invert a few stored matrices; row-exchange bookkeeping only matters for particular pivot orders.",
    [("factorisation", MC + "dgeco.py:dgeco, " + MC + "dgefa.py:dgefa"), ("inverse", MC + "dgedi.py:dgedi"), ("products", MC + "rm.py:rm, " + MC + "rc.py:rc, " + MC + "mc.py:mc")],
    "All entries symbolic.",
)
prop(
    "C12", "Load is curtailed only as much as transmission limits force",
    "For any shortages and surpluses the dispatch respects every line's capacity in both directions and every area's import and export limit, balances each "
    "area and follows the laws of DC flow. Among all such dispatches it curtails the least load in total; without loss sharing only areas in "
    "shortage are curtailed and never beyond their shortage, with loss sharing never beyond an area's load. The stored network is left unchanged.",
    ["inputs", "configurations"], "all injections, line capacities and area limits on bounded networks, every reference area, both sharing modes",
    "Tests compare two dispatches with a reference output; most pivot sequences, reference areas, binding limits and the loss-sharing mode are never run.",
    [("dispatch", MC + "tm2.py:tm2"), ("constraints", MC + "connls.py, " + MC + "conls.py"), ("simplex", MC + "linp.py:linp"), ("solution", MC + "net.py:net")],
    "Every simplex path is explored and optimality is decided by searching for any better feasible dispatch.",
)
prop(
    "C13", "Hourly transmission result: contracts first, then least unserved load",
    "For every drawn state of the lines the evaluation uses exactly those admittances and derated capacities, carries scheduled transfers first and then gives "
    "emergency help within what is left. It reports no problem exactly when no area remains short after its transfers; otherwise the unserved load it reports "
    "is feasible and the least possible. Afterwards stored network data and area limits are as they were, whatever the line states.",
    ["inputs", "configurations", "histories"], "all area positions, every non-splitting combination of line states, capacity multipliers, consecutive evaluations",
    "Tests run the evaluation on single cases with all lines in their first state.",
    [("two-stage evaluation", MC + "transm.py:transm"), ("line state changes and restoration", MC + "tm2.py:tm2")],
    "Area positions symbolic; line states enumerated, contracts concrete.",
)
prop(
    "C14", "Optional printing changes no result and shows the results",
    "Asking for the debug output of the network, the yearly tables or the maintenance printout changes no result, state or later outcome. None of them is written when not asked for. "
    "The yearly table shows, per area, pool, level and cause, that year's losses, energy and averages; the debug output shows the units out or derated, the positions of the areas and the state and flow of every line.",
    ["inputs", "configurations"], "all margins, counts and outages within the bounds, every print option, both layouts, both loss sharing modes",
    "Tests run with the options off and do not look at the printed text.",
    [("network debug output", MC + "tm2.py:tm2"), ("yearly tables", MC + "year.py:year"), ("maintenance printout", DP + "pmsc.py:pmsc")],
    "The same symbolic inputs with the option off and on.",
)
prop(
    "C15", "A shortage is counted once, in the right areas and under the right cause",
    "When areas are short in an hour, each short area's hourly or peak loss count rises by one and its unserved energy by the size of its shortage, for that forecast level only; areas not short keep their counts. "
    "The pool is counted once, with the total shortage. The cause is generation when the pool's margins sum to a negative number and transmission otherwise, also when they sum to zero.",
    ["inputs"], "every vector of margins with at least one shortage, every earlier count and forecast level",
    "Tests call the counters with one margin vector and zeroed counters; a zero pool margin, several levels and accumulated counts are not run.",
    [("hourly losses", MC + "hrstat.py:hrstat"), ("daily peak losses", MC + "pkstat.py:pkstat"), ("other variants", MC + "hrstat.py:_hrstat, " + MC + "pkstat.py:_pkstat")],
    "All margins and counters symbolic.",
)
prop(
    "C16", "Yearly results: sums, weighted averages and distributions",
    "At the end of each year the totals grow by the year's loss counts and energy per area, pool, forecast level and cause, their squares and the probability-weighted averages likewise, "
    "and the year is counted in exactly the distribution class its loss count falls in. All yearly counters then start again from zero and the next year end lies one year later. "
    "The watched statistic is the configured one, and the run stops when it has converged or the last year is over.",
    ["inputs", "histories", "configurations"], "every yearly count, every earlier total, every choice of the convergence statistic, class width and forecast probability",
    "Tests run one year end with one forecast level and zero losses in most areas; squares, classes, levels and the other causes go unchecked.",
    [("year end", MC + "year.py:year"), ("convergence", MC + "cvchk.py:cvchk")],
    "All counts and totals symbolic.",
)
prop(
    "C17", "Years are independent and the totals are the sums over all years",
    "Whatever losses consecutive years have, the totals after several years are the sums of each year's own losses, their squares the sums of the yearly squares, and every year appears once in each distribution. "
    "No loss of one year is counted again in another, for any area, forecast level or cause.",
    ["histories"], "every sequence of yearly losses over several years, recorded by the hourly and peak counters",
    "Tests end a single year; counters that survive a year end show only over several years.",
    [("year end", MC + "year.py:year"), ("hourly losses", MC + "hrstat.py:hrstat"), ("daily peak losses", MC + "pkstat.py:pkstat"), ("convergence", MC + "cvchk.py:cvchk")],
    "All yearly losses symbolic, number of years bounded.",
)
prop(
    "C18", "The final report prints the means, ratios and deviations it announces",
    "Every figure in the final report is the statistic of its row and column: annual means are totals over years, magnitudes are energy per loss event, deviations come from the sums and sums of squares, weighted figures from the weighted totals, "
    "and distribution rows list the share of years in each class. They hold for every area and the pool, each cause and each forecast level. Pool peak, capacity and reserve are those of the pool.",
    ["inputs", "configurations"], "all accumulated statistics, number of years, forecast levels and areas",
    "Tests print a report of stored statistics without looking at the figures.",
    [("report", MC + "report.py:report")],
    "All statistics symbolic; the printed figures are recovered from the text and compared as formulas.",
)
prop(
    "C19", "The run stops when the estimate has converged, not before",
    "After each year the mean and the relative standard error of the watched yearly statistic are those of all years so far. The run is declared converged exactly when at least five years "
    "have been simulated and that error is within the configured limit; a statistic that has been zero so far never converges.",
    ["histories", "inputs"], "every history of yearly values and every limit",
    "Tests check one call from empty history.",
    [("convergence test", MC + "cvchk.py:cvchk"), ("watched statistic", MC + "year.py:year")],
    "All yearly values symbolic.",
)
prop(
    "C05", "Firm contracts count on each of their days, for both areas, and nowhere else",
    "On every day of the year an area's scheduled transfer is the power of the contracts it sends minus that of those it receives, over all contracts whose period contains the day; the transfers of all areas sum to zero. "
    "The loads the peaks are taken from include that transfer on exactly those days, and are the plain loads again afterwards. An area's capacity at its annual peak is that of its shares in the units, with the ratings of the peak day's season, less its scheduled transfer of that day.",
    ["inputs", "configurations"], "all contracts with any areas, power and period",
    "Tests read one stored contract table and look at single days; season boundaries, several contracts per pair and the reverse direction are not run.",
    [("contract table", DP + "datax.py:datax"), ("scheduled transfers", MC + "findtn.py:findtn"), ("loads with contracts", DP + "xporta.py:xporta, " + DP + "xports.py:xports"), ("capacity at the peaks", DP + "resca.py:resca")],
    "Powers symbolic, contract days enumerated inside short windows; all 365 days compared.",
)
prop(
    "C06", "Hourly loads are read in place and scaled; peaks are those of the loads",
    "Every value of the load file becomes the load of its area and hour, scaled so that the area's largest load is its annual peak. The daily peak, its hour, the annual peak day, the weekly peaks and the pool's daily peak hour "
    "are those of the resulting loads, week 52 including the last day of the year. The load at a forecast level is the load of the hour times the area's factor for the level.",
    ["inputs", "configurations"], "every load value, any number and order of areas, every hour of the day",
    "Tests read one stored file and compare stored peaks.",
    [("load file", DP + "xldnew.py:xldnew"), ("daily peaks", DP + "dpeak.py:dpeak"), ("weekly peaks", DP + "wpeakf.py:wpeakf"), ("pool peak hour", DP + "plhr.py:plhr"), ("load at a level", MC + "findld.py:findld")],
    "Load values symbolic in chosen hours and constant elsewhere; weekly peaks with all days symbolic.",
)
prop(
    "C21", "The capacity outage table is exact",
    "Adding units of two or three states one by one yields a table that lists, in ascending order and once each, exactly the reachable amounts of lost capacity, each with the probability that at least that much is lost. "
    "The first state is no outage with probability one, nothing follows the last state, and the order of addition does not matter. Capacities and deratings are rounded to 10 MW.",
    ["inputs"], "any capacities, deratings and state probabilities of up to four units, equal ones included",
    "Tests add one stored list of units.",
    [("unit addition", DP + "gsm.py:gsm, " + DP + "gsm.py:_gsm"), ("table", DP + "pmlolp.py:pmlolp")],
    "Capacities, deratings and probabilities symbolic; probabilities of at least 1 %.",
)
prop(
    "C22", "Every input figure reaches the simulation where its meaning puts it",
    "Each figure of the input tables becomes exactly the simulation quantity it describes: season ends, area peaks and forecast factors, unit ratings by season, ownership shares, state probabilities and derating, maintenance weeks, "
    "line admittances, capacities and cumulative state probabilities, limits of groups of lines, and the control figures. Names are resolved to the areas and units they name, whatever the listing order.",
    ["inputs", "configurations"], "every figure of every table, several areas, units and lines in any order",
    "Tests convert one stored system and compare the arrays with stored ones.",
    [("tables to arrays", DP + "datax.py:datax"), ("names to numbers", DP + "pind.py:pind"), ("preparation of the run", DP + "dataf1.py:dataf1"), ("initial state", MC + "initl.py:initl")],
    "All figures symbolic, counts bounded.",
)
prop(
    "C23", "A simulated hour draws, balances, records and schedules as specified",
    "In every simulated hour the unit and line states are those drawn for their probabilities, each area's capacity is the sum of its shares in the available units, and its margin is that minus load at the level and scheduled transfers. "
    "The network is consulted exactly when some area is short; remaining shortages are recorded at that level as hourly and, in the pool's peak hour, as daily losses. The next hour follows one step later.",
    ["inputs", "histories"], "all ratings, loads, state probabilities, draws and network answers; clocks at day and year ends; two consecutive hours",
    "Tests call the hour event on one stored state.",
    [("hour event", MC + "hour.py:hour"), ("local margins", MC + "gstate.py:gstate"), ("losses by hour", MC + "hrstat.py:hrstat"), ("losses by day", MC + "pkstat.py:pkstat")],
    "The hour event run symbolically with the network evaluation as an arbitrary answer and, in one case, the real one.",
)
prop(
    "C20", "Given planned outages are kept and applied in exactly their weeks",
    "A generating unit whose planned outages are given is out of service in exactly the weeks its outages name and available in all others, for every start week, length and year. "
    "The planning step changes no given outage and moves no unit between areas. The weekly event applies the plan from the first to the last week of each year.",
    ["inputs", "configurations", "histories"], "any start week and length, several units and areas, all 52 weeks and the extra days",
    "Tests plan one stored system and compare one array.",
    [("planning", DP + "smaint.py:smaint"), ("scheduler of an area", DP + "pmsc.py:pmsc"), ("weekly event", MC + "week.py:week")],
    "Outage weeks and lengths symbolic within windows, all weeks of the year.",
)
prop(
    "C24", "A snapshot gives back the state of the run at its year end",
    "At each due year end the accumulated statistics, distributions, event list, network matrices, clock, convergence history and random seeds of that moment are stored under their names. "
    "Loading the restart file gives back exactly these values, however the run went on, and the latest snapshot replaces the earlier ones.",
    ["inputs", "histories"], "all accumulated statistics and counts; periodic and final snapshots; the run going on after the snapshot",
    "No test writes or reads a snapshot.",
    [("writing", MC + "intm.py:intm"), ("reading", MC + "rstart.py:rstart"), ("year end", MC + "year.py:year")],
    "All values symbolic; pickling modelled as an exact copy.",
)
prop(
    "C25", "Every figure of the input tables is delivered under its own name",
    "Reading the input tables delivers every figure and name of each of the eight tables unchanged, under the name the documentation gives it and in the row of the area, unit, line, contract or owner it was written for. "
    "Empty optional tables are delivered as empty.",
    ["inputs", "configurations"], "every figure of every table, several areas, units, lines, contracts and owners",
    "Tests read one stored set of tables.",
    [("table reader", DP + "readInputB.py:readInputB")],
    "All figures symbolic, counts bounded.",
)
# --- more above this line


def main():
    props, checks, na = [], [], []
    for p in sorted(P, key=lambda p: p["id"]):
        files = []
        for n, w in p["mech"]:
            for f in w.split(", "):
                f = f.split(":")[0]
                if f not in files:
                    files.append(f)
                    assert os.path.exists("/repo/" + f), f
        assert len(p["title"]) <= 80, p["title"]
        props.append(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in p["mech"]]),
        ))  # fmt: skip
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
            continue
        m = importlib.import_module("checks." + p["id"])
        checks.append(dict(
            property=p["id"], quick_cmd="./check %s --tier quick" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
            technique="symbolic execution of the Python source with z3 deciding every assertion and path",
            level="model_checking",
            level_note=p["note"] + " Bounds: " + m.BOUNDS + ". Outside: " + m.OUTSIDE + ". " + TRUST,
        ))  # fmt: skip
    with open(ROOT + "/properties.jsonl", "w") as f:
        for x in props:
            f.write(json.dumps(x) + "\n")
    man = dict(
        version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
        notes="Every check symbolically executes the current /repo sources (bounded) and lets z3 decide; see DESIGN.md. No hooks in /repo.",
    )  # fmt: skip
    with open(ROOT + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
