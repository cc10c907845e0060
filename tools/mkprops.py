#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
SIM="src/equity_calculator/simulator.rs"; CR="src/equity_calculator/combined_range.rs"
HAND="src/hand_evaluator/hand.rs"; HR="src/hand_range.rs"; FD="src/fastdivide.rs"; SL="src/string_lookup.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Exact equity equals the full weighted enumeration of deals",
 "For every accepted request (2-9 weighted ranges, 0-5 board cards, any dead cards, any worker count from 1 up), an exact calculation that is not cancelled returns equities, wins, ties and per-winner-set counts that equal, up to one common scale factor, the enumeration in which every non-conflicting assignment of hole cards and every completion of the board is counted exactly once with the product of the players' hand weights, a tie being shared equally. This holds whatever the interleaving of the worker threads.",
 ["inputs","schedules","configurations"],
 "all accepted requests, all worker counts, all interleavings of the workers with each other and with the calling thread",
 "The stable tests only unwrap one exact calculation on a four-of-a-kind board; the two skipped ones check the equity of player 1 in two heads-up requests under whatever schedule the OS happened to choose. Skipped or doubly counted deals in other shapes (many players, dead cards, several joined ranges, more than one work batch) are never sampled.",
 [SIM,CR,HAND,FD],
 [("work reservation under a mutex, each position of the mixed-radix deal index handed out once",SIM+": reserve_batch / enumerate_all"),
  ("suit-isomorphic board enumeration with binomial multiplicities",SIM+": enumerate_board_rec"),
  ("merging of per-worker batches under a write lock",SIM+": update_results"),
  ("joining of ranges into conflict-free products",CR+": from_ranges / join")],
 [("enum_pos","next unreserved deal index",SIM),("results","merged tallies of all workers",SIM)],
 ["exact_equity -> SimulationResults {equities, wins, ties, wins_by_mask}"])

p("C02","Exact results do not depend on worker count or thread schedule",
 "Two uncancelled exact calculations of the same request return the same result - identical win, tie-hand, total and winner-set counts and the same equities (up to floating-point rounding) - for any two worker counts and any two interleavings of the workers.",
 ["schedules","configurations","inputs"],
 "all pairs (worker count, interleaving) for one request, including requests too large to enumerate independently",
 "The tests run each request once, with one thread count and one uncontrolled schedule; nothing compares two executions.",
 [SIM],
 [("atomic reservation of disjoint work ranges",SIM+": reserve_batch"),("commutative merging of batches under one lock",SIM+": update_results")],
 [("enum_pos","next unreserved deal index",SIM),("results","merged tallies",SIM)],
 ["exact_equity -> every field of SimulationResults"])

p("C03","Per-hand and per-combo exact results match the enumeration",
 "After an uncancelled exact calculation, for every player and every one of the 1326 hands, the result looked up by name reports that hand's weight and the wins, ties, shared-tie credit, total and equity that the full enumeration gives for the deals in which the player holds that hand; hands that are outside the range or blocked by board or dead cards report zero and are not valid. Every one of the 169 combo results looked up by name is the sum of its member hands with rates derived from those sums, whatever the interleaving of the workers.",
 ["inputs","schedules","configurations"],
 "all accepted requests, players, hands and combos, worker counts and interleavings",
 "No existing test reads hand_results, combo_results or the name lookups at all.",
 [SIM,HAND,SL,"src/map.rs"],
 [("per-worker hand tallies merged under the results lock",SIM+": update_results, UnitResults"),
  ("aggregation of hands into combos",SIM+": generate_final_data"),
  ("weight bookkeeping around the run",SIM+": save_hand_weights / fix_hand_weights"),
  ("name and index tables",SL+"; src/map.rs; "+HAND+": get_card_index")],
 [("hand_results / combo_results","per player unit results",SIM)],
 ["SimulationResults::get_hand_result / get_combo_result"])

p("C04","Made-hand and draw breakdowns partition each player's result",
 "When the request has 3 or more board cards, for every player the nine made-hand rows contain, each, exactly the tallies and weights of the range hands that make that category with the given board, so together they add up to the player's whole result; each draw row is exactly the sum over the hands that carry that draw marker. This holds for exact, sampled and cancelled calculations under any interleaving.",
 ["inputs","schedules","histories"],
 "all accepted requests with 3-5 board cards, complete, sampled or cut short at any point",
 "No existing test reads board_results or board_draws.",
 [SIM,HAND],
 [("category and draw marking before the workers start",SIM+": set_ranks"),("aggregation after the workers are joined",SIM+": generate_board_data")],
 [("board_results / board_draws","per player category and draw rows",SIM)],
 ["SimulationResults.board_results, board_draws, hand_results[].rank/.draw"])

p("C05","Every returned result is internally consistent",
 "Every result returned by either calculator, complete or cut short by cancellation at any moment, conserves its counts: the winner-set counts, the wins and tie shares per player, and every player's per-hand totals, wins and tie credit all describe the same set of evaluated deals. If at least one deal was evaluated, every equity is a number in [0,1], the players' equities sum to 1 and equal (wins+ties) shares, and each hand that was dealt has equity, win rate and tie rate derived from its own counts.",
 ["schedules","histories","fault_sequences","inputs"],
 "all requests, both calculators, all interleavings and all cancellation moments",
 "Tests look at one equity value of complete runs; conservation across the merged structures under concurrency and cancellation is never examined.",
 [SIM],
 [("single-lock merge of mask counts and hand counts",SIM+": update_results"),("matching updates per evaluated deal",SIM+": evaluate_hands"),("final derivation of rates",SIM+": get_equity, generate_final_data")],
 [("results","merged tallies",SIM)],
 ["SimulationResults: all public fields"])

p("C06","Cancellation stops both calculators promptly",
 "Once the cancel token is set - before the call, from another thread at any moment, or from the progress callback - each worker produces at most two further progress reports and takes on no new work beyond the batch it holds, and the call returns with the partial result. This holds for every interleaving, for any number of workers and also while the workers only meet conflicting deals.",
 ["schedules","fault_sequences","histories"],
 "all moments at which the token can become set, all interleavings, both calculators, any stdev target",
 "Every existing test passes a token that is never set.",
 [SIM],
 [("token checked after each merged batch",SIM+": enumerate_all, sim_random_walk_monte_carlo"),("channel drained until all workers hang up",SIM+": exact_equity / approx_equity")],
 [("cancel token","shared stop flag",SIM)],
 ["cancel_token: Arc<AtomicBool>; number of callback invocations; return of the call"])

p("C07","A cancelled exact calculation is a faithful part of the full one",
 "A cancelled exact calculation returns Ok with tallies that are part of the full enumeration: no hand, winner set or total exceeds its value in the complete result and nothing is counted twice, whatever the moment of cancellation and the interleaving. If the token is never set while work remains, the result is the complete one.",
 ["schedules","fault_sequences","inputs"],
 "all cancellation moments and interleavings over all accepted requests",
 "No test cancels; no test compares a partial result with a complete one.",
 [SIM],
 [("batches merged once, when finished or on stop",SIM+": enumerate_all / update_results"),("disjoint reservations",SIM+": reserve_batch")],
 [("results","merged tallies",SIM)],
 ["exact_equity with a token set mid-run -> SimulationResults"])

p("C08","Progress reports are percentages and exact progress is monotone",
 "Every value passed to the progress callback by either calculator is between 0 and 100, every report a worker makes is delivered before the call returns, and at least one report is delivered. For an exact calculation the reported values never decrease and, unless it was cancelled, the last one is 100, under every interleaving of workers and however slow the callback is.",
 ["schedules","inputs","histories"],
 "all requests, worker counts, interleavings and callback delays",
 "The tests' callbacks ignore or print the value.",
 [SIM],
 [("progress computed and sent inside the results lock",SIM+": update_results"),("receiver loop on the caller's thread",SIM+": rx.iter()")],
 [("enum_pos","reserved deals, basis of the percentage",SIM)],
 ["callback: Fn(u8)"])

p("C09","Sampled deals are always legal deals",
 "A Monte Carlo calculation only ever counts legal deals: no card is used twice, no dead card or board card is dealt, and every player holds a hand of their own range with that hand's own weight. Consequently a winner set, hand, win or tie that has zero count in the full enumeration has zero count in every sampled result, for every random seed, worker count, interleaving and cancellation moment.",
 ["schedules","inputs","histories"],
 "all requests, random seeds, worker counts, interleavings and stopping moments",
 "The stable tests only unwrap the result of the sampler; the skipped one checks a single equity within 0.01.",
 [SIM,CR],
 [("rejection sampling of joint hole cards",SIM+": randomize_hole_cards"),("board sampling against the used-card mask",SIM+": randomize_board"),("random walk that frees and re-occupies one combined range at a time",SIM+": sim_random_walk_monte_carlo")],
 [("used_cards_mask","cards taken in the current deal",SIM)],
 ["approx_equity -> wins_by_mask, hand_results"])

p("C10","Monte Carlo estimates converge to the exact result",
 "For every accepted request that the sampler can deal, the sampled equities of all players and the sampled frequencies and equities of all hands converge, as more batches are drawn, to the values of the full weighted enumeration; there is no systematic error from the order of combos, the walk between deals, weights, worker count, interleaving or the moment of stopping.",
 ["inputs","schedules","histories"],
 "all requests, seeds, worker counts, interleavings; judged over many independent simulated runs",
 "One unseeded test compares one equity with a tolerance of 0.01 and is excluded as flaky; a bias below that, or on any other request shape, goes unseen.",
 [SIM,CR],
 [("uniform joint deal, cyclic walk over a shuffled joint range, uniform board",SIM+": randomize_hole_cards, sim_random_walk_monte_carlo, randomize_board"),("weights multiplied into every counted deal",SIM+": evaluate_hands")],
 [("combo_weights","weights of the hands in the current deal",SIM)],
 ["approx_equity -> equities, hand_results"])

p("C11","Monte Carlo stops when converged and reports an honest deviation",
 "An uncancelled Monte Carlo calculation of a dealable request goes on until the standard error of the first player's equity, estimated over enough batches to be meaningful, is below the requested target, and then stops by itself; the reported deviation is that standard error over the batches actually evaluated. The first player's equity therefore lies within a small multiple of the target of the exact value, for every seed, worker count and interleaving.",
 ["schedules","inputs","histories"],
 "all dealable requests, targets, seeds, worker counts and interleavings",
 "Only a doc-test runs to convergence and it asserts nothing; the one accuracy test allows ten times the target and still fails now and then.",
 [SIM],
 [("batch mean and variance accumulation, stop test",SIM+": update_results")],
 [("batch_sum, batch_sum2, batch_count, stdev","running batch statistics",SIM)],
 ["approx_equity -> stdev, batch_*, equities; termination"])

p("C12","A failing callback, worker or spawn never hangs or corrupts a call",
 "If the progress callback panics, a worker thread dies, a worker thread cannot be started, or the system's random source fails, the call still ends: all started workers finish, the failure reaches the caller as a panic or error, and no result with missing work is returned as a success. Other and later calls in the same process behave as if the failed call had not been made.",
 ["fault_sequences","schedules","crash_points"],
 "all points at which one of these failures can strike, combined with all interleavings",
 "No test injects any failure.",
 [SIM],
 [("scoped threads joined on unwind, panics propagated, lock poisoning",SIM+": thread::scope in exact_equity / approx_equity"),("channel outlives the workers",SIM)],
 [("results lock","poisoned when a worker dies inside",SIM)],
 ["exact_equity / approx_equity: return, panic, termination"])

p("C13","Calculations running side by side do not affect each other",
 "Any number of calculations running concurrently, nested inside a progress callback, or one after another in one process each return what they would return alone, including when they share a cancel token that nobody sets. The library only reads the cancel token: it is unchanged when a call returns.",
 ["schedules","histories","configurations"],
 "all combinations and interleavings of concurrent, nested and sequential calls of both calculators",
 "The tests make one call at a time with a fresh token each.",
 [SIM,SL],
 [("all state is per call, except the caller's token and the lazily built name tables",SIM+": Simulator::new; "+SL)],
 [("cancel token","owned by the caller, possibly shared by calls",SIM)],
 ["results of the calls; value of the token after the call; get_hand_result / get_combo_result from several threads"])

p("C14","Tallies never wrap around, up to nine players and any weights",
 "Counts stay exact for any number of players up to nine and any weights from 0 to 100: a result never shows the effect of an integer overflow, so multiplying all weights of a range by a constant, or writing 'no weight' as weight 100, changes no equity. Hands never show more wins plus ties than deals.",
 ["inputs","histories","configurations"],
 "all player counts, weights and run lengths (the counts accumulate over the batches of a run)",
 "The tests use two players only; the product of weights exceeds 64 bits only with many players or long runs.",
 [SIM,CR],
 [("weights multiplied per deal and accumulated in 64-bit counters",SIM+": enumerate_all, sim_random_walk_monte_carlo, evaluate_hands"),("128-bit aggregation of hands into combos and rows",SIM+": generate_final_data, generate_board_data")],
 [("wins_by_mask, wins, UnitResults","64-bit counters",SIM)],
 ["equities, wins_by_mask, hand_results of both calculators"])

p("C15","Impossible requests are refused without side effects",
 "Both calculators refuse a request with fewer than 2 or more than 9 ranges, more than 5 board cards, too many dead cards to complete the deal, or a range without any hand left, with the corresponding error, and a request whose ranges cannot all be dealt together is refused as conflicting; a request that can be dealt is accepted. A request refused by inspection starts no worker, reports no progress, leaves the cancel token alone and does not disturb calculations running at the same time.",
 ["inputs","histories","schedules"],
 "all requests at and around the limits, made while other calculations are running",
 "No test exercises any error return.",
 [SIM,CR],
 [("argument checks before any thread is started",SIM+": exact_equity / approx_equity"),("emptiness check of the joined ranges",SIM+", "+CR)],
 [],
 ["Result<SimulationResults, SimulatorError>; callback; thread creation"])

p("C16","Hand scores order all 0-7 card hands by the rules of poker",
 "For any two hands of 5-7 distinct cards, comparing their scores agrees with comparing their best five-card hands under the rules of poker, and score divided by 4096 is the category; the score does not depend on the order in which cards are added.",
 ["inputs"],"all 133,784,560 seven-card hands and all smaller ones",
 "The evaluator tests check bit layout of a few hands and never compare a score.",
 [HAND,"src/lookup.rs","src/flush_lookup.rs","src/hash_offsets.rs","src/constants.rs"],
 [("perfect-hash lookup tables",HAND+": evaluate")],[],["Hand::evaluate"])

p("C17","Range text is parsed to exactly the hands it denotes",
 "Every equilab-style range text yields exactly the set of hands it denotes with the written weights and no duplicates, is insensitive to letter case, and any text whatsoever is parsed without panicking.",
 ["inputs"],"all strings","Unit tests cover about ten well-formed texts and only compare lengths.",
 [HR],[("recursive-descent parser",HR+": from_string, parse_hand")],[],["HandRange::from_string / from_strings"])

p("C18","Hand and combo names, indexes and cards correspond one to one",
 "The mapping from unordered pairs of distinct cards to hand indexes is a bijection onto 0..1325 that agrees with the name tables and with the index computed from the pair's bit mask, with pairs first, then suited, then offsuit hands grouped by combo.",
 ["inputs"],"all 1326 pairs, 169 combos, both argument orders","No test touches the index or name tables.",
 [HAND,SL,"src/map.rs"],[("constant tables",  "src/map.rs, "+SL)],[],["get_card_index, Hand::get_card_index, INDEX_TO_HAND, HAND_TO_INDEX, INDEX_TO_COMBO, COMBO_TO_INDEX"])

p("C19","Card text and card masks convert into each other without loss",
 "Converting any set of cards to text and back gives the same set, malformed card text yields the empty mask or an error and never a wrong card or a panic.",
 ["inputs"],"all card sets and all strings","Only single characters are tested.",
 [HR],[("text conversion functions",HR+": get_card_mask, mask_to_string, card_from_str, flop_from_str")],[],["get_card_mask, mask_to_string, card_to_string, card_from_str, flop_from_str"])

p("C20","Fast division equals integer division",
 "For every nonzero 64-bit divisor and every 64-bit dividend the precomputed divider gives the same quotient as integer division.",
 ["inputs"],"all pairs of 64-bit numbers","A test samples about 160 divisors with small dividends.",
 [FD],[("magic-number division",FD+": DividerU64")],[],["DividerU64::divide_by / divide"])

p("C21","Draw markers follow their documented meaning",
 "For any hole cards and any 3- or 4-card board, the draw markers say which straight, flush and backdoor draws the hand has and whether it holds or draws to the nut straight or flush.",
 ["inputs"],"all hole cards and boards","No test calls the function; its documentation calls it experimental.",
 [HAND],[("bit-pattern matching",HAND+": get_draw")],[],["get_draw"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        f.write(json.dumps(q)+"\n")
