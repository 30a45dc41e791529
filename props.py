"""Which harnesses decide which property, and within which bounds."""
ASSUME = [
    'single-threaded execution of the code as compiled by rustc (LLVM IR after LTO, overflow checks on); LLVM undef/poison are not modelled',
    'rand is replaced by a stand-in whose draws are unconstrained within the range the rand API promises; tract-onnx by a type-level stub',
]
Q, T = ('quick', 'thorough'), ('thorough',)
PROPS = {}
def prop(id, bounds, **k): PROPS[id] = dict(bounds=bounds, jobs=[], **k); return PROPS[id]['jobs']
def job(l, entry, *args, tiers=Q, **k): l.append(dict(entry=entry, args=list(args), tiers=tiers, **k))

l = prop('P01', 'every mine placement on boards of the listed sizes')
for what in (0, 2, 3):
    for r, c in ((1, 1), (3, 3), (3, 4), (1, 12), (12, 1), (2, 6), (4, 4)): job(l, 'h_metrics', what, r, c)
for r, c in ((1, 1), (3, 3), (1, 12), (12, 1), (2, 4)): job(l, 'h_metrics', 1, r, c)
for what in (0, 2, 3):
    for r, c in ((4, 5), (5, 4), (3, 6), (1, 20), (2, 10)): job(l, 'h_metrics', what, r, c, tiers=T, cost=5)
for r, c in ((3, 4), (4, 3), (2, 6), (1, 20)): job(l, 'h_metrics', 1, r, c, tiers=T, cost=5)

l = prop('P03', 'any board and any position (every cell opened, hidden, flagged or marked safe) of the listed sizes with the listed number of revealed cells; large boards: fixed mines, free view inside a window')
job(l, 'h_reveal', 2, 4, 1, cost=2); job(l, 'h_reveal', 2, 3, 2, cost=2, split=2); job(l, 'h_reveal', 1, 8, 1); job(l, 'h_reveal', 6, 1, 2)
job(l, 'h_reveal_big', 12, 8, 8, 2, 2, cost=2); job(l, 'h_reveal_big', 20, 10, 7, 2, 2)
job(l, 'h_reveal', 3, 3, 1, tiers=T, split=16, cost=9); job(l, 'h_reveal', 2, 4, 2, tiers=T, split=8, cost=9); job(l, 'h_reveal_big', 12, 16, 16, 2, 3, tiers=T, split=8, cost=9)

l = prop('P04', 'every outcome of the random number generator for every start cell, on the listed sizes and mine counts')
for r, c, n in ((3, 3, 3), (3, 3, 8), (1, 6, 2), (6, 1, 4), (2, 5, 4), (4, 4, 5), (3, 5, 0), (5, 3, 12), (1, 1, 0)): job(l, 'h_laymine', r, c, n)
for r, c, n in ((5, 5, 7), (4, 6, 9), (6, 5, 24)): job(l, 'h_laymine', r, c, n, tiers=T, cost=5)

l = prop('P05', 'every outcome of the random number generator for every start cell, on the listed sizes and mine counts (as many mines as leave room for the opening)')
for r, c, n in ((3, 3, 3), (4, 4, 5), (1, 6, 2), (6, 1, 3), (2, 5, 4), (3, 5, 6), (1, 1, 0), (2, 2, 0)): job(l, 'h_laymine_op', r, c, n)
for r, c, n in ((4, 4, 12), (4, 4, 10), (3, 5, 9), (3, 4, 8), (5, 3, 6)): job(l, 'h_laymine_op', r, c, n)
for r, c, n in ((5, 5, 7), (5, 5, 16), (4, 6, 9), (6, 5, 18)): job(l, 'h_laymine_op', r, c, n, tiers=T, cost=5)

l = prop('P08', 'any mines and any correct position of the listed sizes (the second list: fixed arrangement of opened and hidden cells, or a free window in a fixed board)')
for w in (0, 1, 2):
    job(l, 'h_solver', w, 2, 3, 1, cost=2); job(l, 'h_solver', w, 1, 6, 0); job(l, 'h_solver', w, 6, 1, 0)
    job(l, 'h_solver', w, 3, 3, 0, cost=2, tiers=Q if w else T)
    if w: job(l, 'h_solver_window', w, 130, 6, 6, 2, 2)
    job(l, 'h_solver', w, 3, 3, 1, tiers=T, split=16, cost=9); job(l, 'h_solver', w, 3, 4, 0, tiers=T, split=8, cost=9)
    if w: job(l, 'h_solver_window', w, 130, 10, 8, 2, 3, tiers=T, split=4, cost=4)
for m in ((6, 6, 72506766337712587), (4, 8, 697323740866867)):
    for w in (1, 2): job(l, 'h_solver_at', w, *m)

l = prop('P09', 'any mines and any correct position of the listed sizes (windows: a free window in a fixed board)')
for w in (3, 4, 5):
    job(l, 'h_solver', w, 2, 3, 1, cost=2); job(l, 'h_solver', w, 1, 6, 0); job(l, 'h_solver', w, 2, 4, 0, cost=2); job(l, 'h_solver_window', w, 130, 6, 6, 2, 2)
    job(l, 'h_solver_at', w, 3, 5, 7226212); job(l, 'h_solver_at', w, 3, 4, 264748)  # #####/#.#.#/x####  ####/#..#/####
    job(l, 'h_solver', w, 3, 3, 0, tiers=T, split=8, cost=9); job(l, 'h_solver', w, 2, 4, 1, tiers=T, split=8, cost=9); job(l, 'h_solver_window', w, 130, 8, 8, 2, 3, tiers=T, split=8, cost=9)

l = prop('P10', 'any mines and any correct position of the listed sizes, with at most as many hidden border cells as fit on the board')
job(l, 'h_solver', 16, 2, 3, 0); job(l, 'h_solver', 16, 2, 3, 1, cost=2, split=2); job(l, 'h_solver', 16, 2, 4, 0, cost=3, split=2); job(l, 'h_solver', 16, 1, 6, 0); job(l, 'h_solver_at', 16, 3, 3, 9760); job(l, 'h_solver_at', 16, 3, 4, 264748, cost=2)
job(l, 'h_solver', 16, 3, 3, 0, tiers=T, split=16, cost=9); job(l, 'h_solver', 16, 2, 4, 1, tiers=T, split=8, cost=9); job(l, 'h_solver_window', 16, 130, 8, 8, 2, 3, tiers=T, split=8, cost=9)

l = prop('P12', 'any mines and any correct position of the listed sizes')
job(l, 'h_solver', 17, 2, 3, 0); job(l, 'h_solver', 17, 2, 3, 1, cost=2, split=2); job(l, 'h_solver', 17, 1, 6, 0); job(l, 'h_solver_at', 17, 3, 3, 9760); job(l, 'h_solver_at', 17, 3, 4, 264748, cost=2); job(l, 'h_solver', 17, 2, 4, 0, cost=3, split=2)
job(l, 'h_solver', 17, 3, 3, 0, tiers=T, split=16, cost=9); job(l, 'h_solver', 17, 2, 4, 1, tiers=T, split=8, cost=9); job(l, 'h_solver_window', 17, 130, 8, 8, 2, 2, tiers=T, split=8, cost=9)

for w in (2, 3):
    l = PROPS['P09' if w == 2 else 'P10']['jobs']
    job(l, 'h_advise', w, 1, 6); job(l, 'h_advise', w, 2, 3); job(l, 'h_advise_at', w, 3, 4, 206668); job(l, 'h_advise_at', w, 3, 4, 263280)
    job(l, 'h_advise', w, 2, 4, tiers=T, cost=3); job(l, 'h_advise', w, 3, 3, tiers=T, split=8, cost=9)

l = prop('P02', 'any board of the listed sizes with so many questions in any order; any correct position of the listed sizes with so many questions, two of them with a change of position in between')
job(l, 'h_board', 1, 3, 2); job(l, 'h_board', 2, 2, 2); job(l, 'h_board', 2, 3, 2); job(l, 'h_board', 2, 2, 3, cost=2, split=2)
job(l, 'h_game_board', 1, 4, 1); job(l, 'h_game_board', 2, 2, 1); job(l, 'h_game_board', 2, 3, 1, cost=3, split=2); job(l, 'h_game_board', 2, 2, 2, cost=3, split=4); job(l, 'h_game_board', 1, 4, 2, cost=3, split=4)
job(l, 'h_board', 3, 3, 2, tiers=T, cost=5, split=4); job(l, 'h_board', 2, 3, 3, tiers=T, cost=5, split=4); job(l, 'h_game_board', 1, 5, 2, tiers=T, split=8, cost=9); job(l, 'h_game_board', 2, 3, 2, tiers=T, split=16, cost=9)

l = prop('P07', 'every randomness; decoding: one cell with any value at any place of the listed sizes; games: any board of the listed size and so many clicks of any kind anywhere; measures: any board of the listed size')
job(l, 'h_safe', 1, 1); job(l, 'h_safe', 2, 2, cost=2); job(l, 'h_safe', 1, 3); job(l, 'h_safe', 3, 1)
for r, c in ((1, 4), (2, 3)): job(l, 'h_safe_metrics', r, c)
for r, c, n in ((1, 3, 1), (2, 2, 1), (1, 3, 2), (2, 3, 1)): job(l, 'h_safe_game', r, c, n)
job(l, 'h_safe', 3, 2, tiers=T, cost=3); job(l, 'h_safe', 2, 4, tiers=T, cost=4); job(l, 'h_safe_metrics', 3, 3, tiers=T, cost=3); job(l, 'h_safe_game', 2, 2, 2, tiers=T, cost=4); job(l, 'h_safe_game', 1, 4, 3, tiers=T, split=4, cost=4)

l = prop('P11', 'fixed boards of the listed sizes in which a window of the listed size, at any place, may hold any mines; start at a corner, the middle or the bottom left')
job(l, 'h_solvable', 120, 5, 5, 2, 2); job(l, 'h_solvable', 115, 5, 5, 2, 2); job(l, 'h_solvable', 125, 4, 4, 3, 3, cost=2); job(l, 'h_solvable', 130, 3, 8, 2, 3, cost=2); job(l, 'h_solvable', 118, 5, 7, 2, 2, cost=2)
job(l, 'h_solvable', 110, 6, 6, 2, 2, tiers=T, cost=4); job(l, 'h_solvable', 120, 7, 7, 2, 2, tiers=T, cost=5, split=4); job(l, 'h_solvable', 112, 6, 6, 2, 3, tiers=T, cost=9, split=8); job(l, 'h_solvable', 122, 8, 4, 3, 3, tiers=T, cost=9, split=8)

l = prop('P13', 'any correct position of the listed sizes (second list: fixed arrangement of opened and hidden cells) with any mines; densities: the real one and two extreme ones; contradictory numbers 0 to 5 and every number of mines on the third list')
job(l, 'h_chances', 0, 1, 5, 0); job(l, 'h_chances', 0, 1, 5, 1, cost=2); job(l, 'h_chances', 0, 2, 3, 0); job(l, 'h_chances', 1, 1, 4, 1); job(l, 'h_chances', 1, 2, 3, 0, cost=2); job(l, 'h_chances', 2, 1, 5, 0); job(l, 'h_chances', 2, 2, 3, 0, cost=2)
job(l, 'h_chances', 3, 1, 4, 0); job(l, 'h_chances', 3, 2, 2, 0, cost=2); job(l, 'h_chances', 3, 1, 5, 0, cost=2)
for w in (0, 2): job(l, 'h_chances_at', w, 3, 4, 206668); job(l, 'h_chances_at', w, 2, 5, 29515)
job(l, 'h_chances_at', 0, 1, 8, 2548); job(l, 'h_chances_at', 1, 2, 5, 29515)
job(l, 'h_chances_at', 0, 3, 4, 264748, tiers=T, cost=3); job(l, 'h_chances_at', 1, 3, 4, 206668, tiers=T, cost=3); job(l, 'h_chances_at', 2, 3, 4, 264748, tiers=T, cost=3)
for w in (0, 1): job(l, 'h_chances', w, 2, 3, 1, tiers=T, cost=4, split=2); job(l, 'h_chances', w, 1, 6, 1, tiers=T, cost=4, split=2)
job(l, 'h_chances', 0, 2, 4, 0, tiers=T, cost=5, split=4); job(l, 'h_chances', 2, 2, 4, 0, tiers=T, cost=9, split=8); job(l, 'h_chances', 3, 2, 3, 0, tiers=T, cost=9, split=8); job(l, 'h_chances', 0, 3, 3, 0, tiers=T, cost=9, split=16)

l = prop('P14', 'any correct position of the listed sizes (second list: fixed arrangement of opened and hidden cells) with any mines, hidden cells unmarked, all flagged or marked in a pattern, any cell asked about')
for w in (0, 1):
    job(l, 'h_advise', w, 1, 5); job(l, 'h_advise', w, 2, 2); job(l, 'h_advise', w, 2, 3, cost=3, split=2); job(l, 'h_advise', w, 1, 6, cost=2)
    job(l, 'h_advise_at', w, 3, 4, 206668, cost=2, split=2); job(l, 'h_advise_at', w, 2, 5, 29515); job(l, 'h_advise_at', w, 1, 8, 2548)
    job(l, 'h_advise_at', w, 3, 4, 264748, tiers=T, cost=5, split=2); job(l, 'h_advise_at', w, 3, 4, 263280, tiers=T, cost=5, split=2)
    job(l, 'h_advise', w, 2, 4, tiers=T, split=8, cost=9); job(l, 'h_advise', w, 3, 3, tiers=T, split=16, cost=9)

l = prop('P31', 'every mine placement on boards of the listed sizes')
for r, c in ((3, 3), (4, 4), (3, 6), (6, 3), (5, 5), (6, 6), (5, 8), (8, 5)): job(l, 'h_structure', r, c)
for r, c in ((8, 8), (10, 10), (9, 16)): job(l, 'h_structure', r, c, tiers=T, cost=5)

l = prop('P32', 'any view of the listed sizes made of numbers 0 to 8, hidden and flagged cells, any cell asked about')
job(l, 'h_good_chord', 2, 3); job(l, 'h_good_chord', 1, 4); job(l, 'h_good_chord', 3, 1); job(l, 'h_good_chord', 3, 2)
job(l, 'h_good_chord_at', 3, 3, 1, 1, 5, cost=3, split=2); job(l, 'h_good_chord_at', 3, 3, 1, 1, 0, tiers=T, cost=9, split=8)
job(l, 'h_good_chord', 3, 3, tiers=T, cost=9, split=8); job(l, 'h_good_chord', 2, 4, tiers=T, cost=5, split=4)

EV = ["mv", "lc", "lr", "l", "rc", "rr", "r", "cc", "crl", "crr", "mc", "mr", "m", "pf", "zz"]
GAME = dict(P15=0, P16=1, P17=2, P18=3, P19=4)
for id, w in GAME.items():
    l = prop(id, 'one event of every kind at every place in any position: running games of 2x2 (some events 2x3, 1x5) with any opened and flagged cells, any counters and any mouse state; games about to begin of 1x3 (thorough 2x2) with any flags; all gesture sequences of the listed length from the start on 1x3 and 2x2; hidden cells opened in any order (boards up to 2x3, 3x2, 1x5); 3x3 with mines in two opposite corners and any view')
    for e in range(15):
        if e != 6: job(l, 'h_step', w, 0, 2, 2, e, cost=2)
        job(l, 'h_step', w, 1, 1, 3, e); job(l, 'h_step', w, 2, 2, 2, e)
        job(l, 'h_step', w, 1, 2, 2, e, tiers=T)
    job(l, 'h_step', w, 0, 1, 3, 6); job(l, 'h_step', w, 0, 2, 2, 6, tiers=T, cost=4)
    for e in (range(15) if w == 0 else (1, 2, 4, 5)): job(l, 'h_step', w, 3, 1, 3, e)
    for e in (2, 5, 11): job(l, 'h_step', w, 0, 2, 3, e, tiers=Q if w in (1, 2) else T, cost=5, split=2)
    for e in (2, 11): job(l, 'h_step', w, 0, 1, 5, e, cost=3)
    for e in (2, 5, 11): job(l, 'h_step', w, 0, 3, 2, e, tiers=T, cost=5, split=2); job(l, 'h_step', w, 0, 1, 6, e, tiers=T, cost=5)
    if w in (1, 3): job(l, 'h_step', w, 0, 3, 3, 2, tiers=T, cost=8, split=8)
    job(l, 'h_play', w, 1, 3, 3, cost=2); job(l, 'h_play', w, 2, 2, 2)
    job(l, 'h_play', w, 2, 2, 3, tiers=Q if w != 3 else T, cost=4); job(l, 'h_play', w, 1, 3, 4, tiers=T, cost=5); job(l, 'h_play', w, 2, 3, 3, tiers=T, cost=8, split=4)
    if w in (1, 3):
        for a in ((2, 3, 5), (3, 2, 5), (1, 5, 5)): job(l, 'h_order', w, *a, cost=2)
        job(l, 'h_order', w, 3, 3, 4, tiers=T, cost=8, split=4); job(l, 'h_order', w, 2, 4, 5, tiers=T, cost=8, split=4)
    if w in (1, 2, 3): job(l, 'h_step_at', w, 3, 3, 257, 11, cost=2); job(l, 'h_step_at', w, 3, 3, 257, 2, tiers=Q if w != 2 else T, cost=2); job(l, 'h_step_at', w, 3, 3, 257, 5, tiers=T, cost=2)
    if w == 0: job(l, 'h_flow', 1, 2, 2); job(l, 'h_flow', 1, 2, 3, tiers=T, cost=5)

l = prop('P20', 'any board of 1x3 and 2x1 (thorough 2x2, 3x1, 3x2), nine kinds of history at any places, five kinds of continuation at any places')
for h in range(9):
    for a in range(5): job(l, 'h_reset', 1, 3, h, a, tiers=Q if a < 4 or h in (0, 6) else T, cost=1 + (a == 4)); job(l, 'h_reset', 2, 2, h, a, tiers=T, cost=3)

for h in (0, 1, 2, 4):
    for a in range(5): job(l, 'h_reset', 2, 1, h, a); job(l, 'h_reset', 3, 1, h, a, tiers=T); job(l, 'h_reset', 3, 2, h, a, tiers=T, cost=4)

l = prop('P21', 'any board of the listed sizes, any list of so many events of any kind at any place, legal or not')
job(l, 'h_flow', 1, 1, 2); job(l, 'h_flow', 1, 2, 2); job(l, 'h_flow', 1, 1, 3); job(l, 'h_flow', 1, 3, 2); job(l, 'h_flow', 2, 2, 2); job(l, 'h_flow', 1, 2, 3, cost=3, split=4)
job(l, 'h_flow', 1, 1, 4, tiers=T, cost=9, split=8)

l = prop('P06', 'every randomness (adjusting: with at most the listed number of draws), every start cell, on the listed sizes, mine counts and numbers of attempts')
job(l, 'h_generate', 0, 3, 3, 1, 1, 99); job(l, 'h_generate', 0, 3, 3, 2, 1, 99); job(l, 'h_generate', 0, 3, 4, 1, 2, 99, cost=2); job(l, 'h_generate', 0, 4, 4, 1, 1, 99, cost=3); job(l, 'h_generate', 0, 3, 3, 2, 0, 99)
for r, c, n, d in ((2, 4, 2, 12), (2, 3, 1, 20), (2, 5, 2, 12), (1, 5, 2, 12), (3, 5, 1, 12), (1, 6, 3, 12), (2, 2, 2, 9), (1, 4, 3, 9)): job(l, 'h_generate', 1, r, c, n, 0, d)
job(l, 'h_generate', 1, 3, 4, 2, 0, 12, cost=9, split=4)
job(l, 'h_generate', 0, 3, 4, 2, 1, 99, tiers=T, cost=9, split=4); job(l, 'h_generate', 0, 3, 3, 2, 2, 99, tiers=T, cost=9, split=4); job(l, 'h_generate', 1, 4, 4, 2, 0, 12, tiers=T, cost=9, split=8); job(l, 'h_generate', 1, 3, 4, 3, 0, 12, tiers=T, cost=9, split=8)

LIVE = 'any board of the listed sizes (cell sizes 5, 7 and 16 pixels); fixed lists of gestures whose targets are any of three places, times fixed to the nanosecond, then the listed number of events of any kind at any place in or outside the board'
l = prop('P22', LIVE + '; clock: six events, each up to 0.13 s (free to the microsecond) after the last or after some whole seconds')
for w in (0, 1):
    for s in range(9): job(l, 'h_record', w, 2, 2, 16, s, 1, cost=2 if s < 5 else 3)
    job(l, 'h_record', w, 1, 3, 5, 1, 2, cost=3); job(l, 'h_record', w, 1, 3, 5, 0, 2, cost=2)
    job(l, 'h_record', w, 2, 2, 16, 9, 1, tiers=T, cost=5); job(l, 'h_record', w, 2, 3, 7, 5, 1, tiers=T, cost=9, split=4); job(l, 'h_record', w, 1, 3, 5, 1, 3, tiers=T, cost=9, split=8)
for w in (0, 1):
    for s in (10, 11): job(l, 'h_record', w, 2, 2, 16, s, 0)
job(l, 'h_clock', 0); job(l, 'h_clock', 1)

l = prop('P23', 'seeking: any list of so many times (whole milliseconds below 2^20, in order) and so many jumps to any time or event; replay: any board of the listed sizes, the lists of gestures of P22, every event visited in turn')
job(l, 'h_seek', 3, 1); job(l, 'h_seek', 3, 2); job(l, 'h_seek', 4, 2, cost=2); job(l, 'h_seek', 1, 2)
for w in (1, 2):
    for s in (1, 2, 4, 5, 6, 7, 8, 9): job(l, 'h_replay', w, 2, 2, 16, s, 0)
    job(l, 'h_replay', w, 1, 3, 5, 5, 0); job(l, 'h_replay', w, 1, 3, 5, 6, 0)
    job(l, 'h_replay', w, 1, 3, 5, 5, 1, cost=4); job(l, 'h_replay', w, 1, 3, 5, 8, 1, tiers=T, cost=4); job(l, 'h_replay', w, 2, 3, 7, 5, 1, tiers=T, cost=9, split=8)
job(l, 'h_seek', 6, 2, tiers=T, cost=4); job(l, 'h_seek', 4, 3, tiers=T, cost=4)

for a in ((1, 3, 1, 0), (1, 3, 2, 0), (1, 3, 5, 0), (2, 2, 6, 0), (2, 2, 8, 0), (2, 3, 6, 0), (1, 3, 5, 1)): job(l, 'h_chances_shown', *a)
for a in ((2, 3, 5, 1), (2, 2, 5, 1)): job(l, 'h_chances_shown', *a, tiers=T, cost=9, split=4)

l = prop('P24', 'any mines, texts of the listed lengths, flags, numbers and events on the listed sizes; writing: any values a recorder may hold; times: all of three bytes')
for a in ((2, 3, 12, 1, 0), (3, 3, 0, 2, 1), (1, 9, 0, 3, 1), (1, 1, 87654321, 0, 1), (4, 2, 1111, 1, 1)): job(l, 'h_evf', *a, cost=2)
for a in ((2, 3, 0, 1, 0), (2, 3, 1001, 1, 2), (1, 9, 30000000, 1, 3), (3, 3, 0, 1, 4)): job(l, 'h_evf_write', *a)
job(l, 'h_evf_time', 24, 0, 0)
job(l, 'h_evf', 8, 8, 0, 0, 0, tiers=T, cost=4); job(l, 'h_evf', 3, 5, 22222222, 3, 1, tiers=T, cost=4); job(l, 'h_evf_write', 3, 5, 12121212, 2, 1, tiers=T, cost=4)

l = prop('P25', 'any mines on the listed custom sizes (one set of mines on the standard sizes); any first press and then so many events of any kind of the format, at any place and hundredth of a second; texts and header values of nine forms')
for a in ((6, 3, 2, 2, 1, 2), (6, 3, 2, 2, 2, 3), (3, 0, 0, 0, 1, 4), (4, 0, 0, 0, 2, 6), (5, 0, 0, 0, 2, 4), (6, 3, 2, 0, 3, 7), (6, 1, 4, 3, 1, 5), (6, 9, 9, 1, 1, 8), (3, 0, 0, 0, 2, 0), (6, 2, 2, 1, 2, 1)): job(l, 'h_avf', *a)
for a in ((6, 3, 3, 3, 3, 5), (6, 5, 4, 4, 2, 2), (5, 0, 0, 0, 3, 9)): job(l, 'h_avf', *a, tiers=T, cost=4)

l = prop('P26', 'any mines and earlier flags on the listed sizes; so many events of any kind at any place and time; ten forms of header')
for f in range(10): job(l, 'h_rmv', 3, 2, 1 + f % 2, f % 3, 1, f)
for a in ((3, 2, 2, 1, 2, 4), (3, 2, 2, 0, 1, 8), (3, 2, 1, 2, 0, 3), (3, 2, 1, 0, 0, 1), (2, 4, 0, 0, 2, 0), (5, 6, 1, 0, 1, 6)): job(l, 'h_rmv', *a, cost=2)
for a in ((3, 2, 2, 1, 3, 2), (4, 4, 3, 2, 2, 9)): job(l, 'h_rmv', *a, tiers=T, cost=9, split=4)

l = prop('P27', 'any mines on the listed sizes, so many states of the buttons and places, header values free; the listed number at the head of the events')
for lead in (0, 777, 12345, 65535): job(l, 'h_mvf', 3, 2, 1, 1, lead, 0)
job(l, 'h_mvf', 3, 2, 1, 2, 777, 0, cost=3); job(l, 'h_mvf', 2, 4, 1, 2, 40000, 0, cost=3, split=4); job(l, 'h_mvf', 3, 2, 2, 1, 40000, 0); job(l, 'h_mvf', 5, 6, 1, 1, 3, 0)
for lead in (1, 100, 999, 4096, 31415, 50000): job(l, 'h_mvf', 3, 2, 1, 1, lead, 0, tiers=T); job(l, 'h_mvf', 3, 2, 1, 2, lead, 0, tiers=T, cost=4)
job(l, 'h_mvf', 3, 2, 1, 3, 777, 0, tiers=T, cost=9, split=8)

for one in (1, 2, 4): job(l, 'h_mvf', 3, 2, 1, 4, 777, one); job(l, 'h_mvf', 3, 2, 1, 7, 777, one, tiers=T, cost=3)

l = prop('P28', 'a correct file of each format (avf, rmv, mvf, evf) cut anywhere, or with the listed number of bytes from the listed place on replaced by any others; files of free bytes of the listed length, some after the right magic')
LEN = {0: 120, 1: 196, 2: 132, 3: 132}
SLOW = {0: (4, 5, 6, 7), 1: (8, 9, 10, 11, 12, 13, 14, 15, 92, 93, 94, 95), 2: (96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111), 3: (0, 1, 2, 3)}
for f in range(4):
    job(l, 'h_cut', f)
    for at in range(0, LEN[f], 4):
        if at not in SLOW[f]: job(l, 'h_damaged', f, at, 4, cost=1)
for f, at, n in ((0, 4, 2), (0, 8, 8), (1, 8, 4), (1, 12, 4), (1, 94, 2), (1, 95, 2), (2, 99, 2), (2, 102, 2), (2, 103, 1), (2, 104, 1), (2, 96, 1), (3, 0, 2)): job(l, 'h_damaged', f, at, n, cost=2)
for f, at, n in ((0, 6, 1), (1, 92, 1), (2, 97, 1), (3, 3, 2)): job(l, 'h_damaged', f, at, n, tiers=T, cost=6)
job(l, 'h_noise', 1, 30, 0); job(l, 'h_noise', 2, 60, 0); job(l, 'h_noise', 2, 90, 0); job(l, 'h_noise', 1, 60, 24); job(l, 'h_evf_any', 22, 0, cost=2); job(l, 'h_evf_any', 32, 0, tiers=T, cost=5); job(l, 'h_evf_any', 25, 1, tiers=T, cost=9)
for f, at in ((0, 24), (0, 32), (0, 48), (1, 16), (1, 24), (1, 64), (1, 100), (2, 70), (3, 8), (3, 16)): job(l, 'h_damaged', f, at, 8, tiers=T, cost=6)

l = prop('P29', LIVE + ' (games that end), written as evf and read back')
job(l, 'h_replay', 0, 2, 2, 16, 11, 0); job(l, 'h_replay', 0, 1, 3, 5, 11, 0)
for s in (1, 2, 4, 5, 6, 7, 8, 9): job(l, 'h_replay', 0, 2, 2, 16, s, 0)
job(l, 'h_replay', 0, 1, 3, 5, 5, 0); job(l, 'h_replay', 0, 1, 3, 5, 6, 0); job(l, 'h_replay', 0, 1, 3, 5, 8, 1, cost=4); job(l, 'h_replay', 0, 1, 3, 5, 5, 1, cost=4); job(l, 'h_replay', 0, 2, 3, 7, 6, 0, cost=2)
job(l, 'h_replay', 0, 2, 3, 7, 5, 1, tiers=T, cost=9, split=8); job(l, 'h_replay', 0, 1, 3, 5, 5, 2, tiers=T, cost=9, split=8)

l = prop('P30', 'software named in the audit or of the listed length of any bytes, the listed number of events, 3BV 0, 1, 2, 7 or 65535 (no events: any), time stamps of ten digits or with a wrong character or too short, any checksum or a constant one')
for a in ((0, 0, 0), (0, 5, 0), (0, 12, 0), (0, 25, 0), (0, 70, 1), (1, 10, 10), (1, 70, 13), (1, 0, 10), (1, 10, 9), (1, 10, 20), (1, 20, 23), (2, 10, 0), (2, 10, 3), (3, 10, 0), (3, 70, 2), (2, 9, 0), (7, 10, 0), (11, 10, 0), (10, 10, 0), (13, 10, 0), (17, 10, 0), (4, 0, 0)): job(l, 'h_valid', *a)

l = prop('P33', 'each state of a recorder, any values; ' + LIVE)
for s in range(6): job(l, 'h_gate', s)
for s in (1, 2, 4, 5, 6, 7, 8): job(l, 'h_record', 2, 2, 2, 16, s, 0)
for s in (1, 2): job(l, 'h_record', 2, 2, 2, 16, s, 1, cost=4)
job(l, 'h_record', 2, 1, 3, 5, 5, 0); job(l, 'h_record', 2, 1, 3, 5, 1, 1, cost=2); job(l, 'h_record', 2, 1, 3, 5, 5, 1, cost=3)
for s in (5, 6, 8, 9): job(l, 'h_record', 2, 2, 2, 16, s, 1, tiers=T, cost=8, split=2)

l = prop('P34', 'any board of the listed sizes, a first game played by one list of gestures to its end or given up, a second by another list with free events')
for w, r, c, s, f, a in ((6, 1, 3, 1, 0, 1), (2, 2, 2, 1, 0, 1), (5, 1, 3, 1, 1, 1), (1, 2, 2, 1, 0, 1), (0, 2, 2, 1, 0, 1), (2, 1, 3, 1, 0, 5), (4, 1, 3, 5, 0, 5), (5, 1, 3, 3, 0, 2), (6, 1, 3, 6, 0, 5)): job(l, 'h_reuse', w, r, c, 16, s, f, a, cost=2)
for w, r, c, s, f, a in ((0, 1, 3, 3, 1, 1), (2, 1, 3, 5, 0, 5), (2, 1, 3, 8, 0, 9), (1, 1, 3, 7, 0, 5)): job(l, 'h_reuse', w, r, c, 16, s, f, a, tiers=T, cost=6, split=4)

l = prop('P36', 'the listed sizes, numbers of mines, start cells and of tries; each draw any board, or all draws the same one (any); threads take turns at draws, waits and ends, the thread whose turn it is being passed over at most the listed number of times',
         assume=['threads: one runs at a time and hands over only at a random draw, a wait or its end; the standard library between these points is executed as compiled (spawn, join, Mutex, Arc, mpsc), futex waits end when the word has changed, thread-local destructors are not run'])
for a in ((4, 3, 2, 0, 0, 1, 1, 0), (4, 3, 3, 3, 2, 1, 1, 1), (5, 4, 3, 2, 1, 1, 1, 0), (4, 4, 3, 0, 0, 1, 1, 0), (3, 3, 2, 0, 0, 0, 1, 1), (3, 3, 2, 0, 0, 1, 1, 0), (3, 3, 2, 0, 0, 1, 1, 2), (3, 3, 2, 0, 0, 7, 1, 1), (3, 3, 1, 0, 0, 3, 0, 1), (3, 4, 3, 0, 0, 2, 1, 1), (3, 3, 1, 2, 1, 8, 0, 1), (3, 4, 2, 2, 3, 1, 0, 0)): job(l, 'h_generate_threads', *a)
for a in ((3, 4, 3, 0, 0, 9, 1, 1), (3, 3, 2, 0, 0, 2, 1, 3), (3, 3, 2, 0, 0, 2, 0, 1), (4, 4, 4, 0, 0, 3, 1, 1)): job(l, 'h_generate_threads', *a, tiers=T, cost=9, split=8)

l = prop('P37', 'every start cell and two outcomes of the shuffle of the list of cells, any of them, on the listed sizes and mine counts')
for a in ((0, 3, 3, 3), (0, 2, 5, 4), (0, 1, 6, 3), (0, 6, 1, 2), (0, 4, 4, 5), (1, 3, 3, 3), (1, 4, 4, 5), (1, 3, 5, 4), (1, 2, 5, 3), (1, 5, 5, 7)): job(l, 'h_uniform', *a)
for a in ((0, 5, 5, 12), (0, 6, 4, 9), (1, 6, 5, 11), (1, 4, 7, 8), (0, 3, 8, 20)): job(l, 'h_uniform', *a, tiers=T, cost=5)

l = prop('P38', 'expert boards (16x30, 99 mines) with fixed mines around a window of the listed size and place that may hold the listed number of mines anywhere; the listed number of games, every game drawing the same board; threads passed over at most the listed number of times',
         assume=PROPS['P36']['assume'])
for a in ((0, 0, 16, 21, 5, 5, 2, 3, 3, 0), (15, 29, 17, 21, 14, 27, 2, 3, 2, 0), (8, 15, 3, 35, 0, 0, 3, 3, 2, 0), (3, 20, 33, 28, 7, 14, 2, 2, 1, 0), (7, 0, 5, 45, 12, 10, 3, 2, 4, 0), (0, 29, 0, 20, 4, 4, 1, 1, 0, 0), (4, 4, 2, 24, 2, 20, 2, 2, 2, 1), (10, 10, 1, 23, 0, 28, 3, 2, 3, 0)): job(l, 'h_sample', *a)
for a in ((0, 0, 16, 22, 6, 10, 3, 4, 5, 0), (15, 0, 1, 33, 13, 0, 3, 4, 4, 0), (7, 7, 31, 21, 0, 26, 4, 4, 4, 0), (9, 1, 2, 50, 4, 4, 3, 3, 4, 2)): job(l, 'h_sample', *a, tiers=T, cost=9, split=8)

l = prop('P39', 'one useful event of any kind at any place on any correct position of the listed sizes (any mines, flags or none on the other hidden cells), and luck over the listed number of such events; ways of the mouse over four places with the listed number of events; textbook sequences of flags and chords on one 2x7 board with one event replaced by any other; played games as in P22 analysed for everything')
for w in range(5): job(l, 'h_remark', w, 1, 4); job(l, 'h_remark', w, 2, 2)
job(l, 'h_remark', 3, 1, 5, cost=4, split=2); job(l, 'h_remark', 3, 2, 3, cost=5, split=4); job(l, 'h_remark_at', 3, 3, 4, 206668, cost=3); job(l, 'h_remark_at', 3, 1, 8, 2548, cost=3); job(l, 'h_remark_at', 4, 2, 5, 29515, cost=3)
job(l, 'h_luck', 1, 2, 2); job(l, 'h_luck', 1, 3, 1); job(l, 'h_luck', 2, 2, 1); job(l, 'h_luck', 1, 3, 2, cost=5, split=4)
job(l, 'h_trace', 4); job(l, 'h_far', 9, 5); job(l, 'h_far', 12, 3, cost=2); job(l, 'h_far', 10, 19, cost=2)
for m in range(4): job(l, 'h_local_plain', m)
job(l, 'h_local', 1, 0, 30); job(l, 'h_local', 3, 0, 30); job(l, 'h_local', 2, 0, 30, tiers=T)
for a in ((1, 3, 5, 5, 0), (1, 3, 5, 10, 0), (2, 2, 16, 9, 0), (2, 2, 16, 10, 0), (2, 3, 7, 6, 0), (2, 2, 16, 7, 0)): job(l, 'h_remarks_all', *a)
job(l, 'h_remarks_all', 1, 3, 16, 5, 1, tiers=T, cost=3); job(l, 'h_remark', 3, 1, 6, tiers=T, cost=9, split=8); job(l, 'h_remark_at', 3, 3, 4, 264748, tiers=T, cost=9, split=4); job(l, 'h_luck', 2, 2, 2, tiers=T, cost=9, split=16); job(l, 'h_trace', 6, tiers=T, cost=9, split=8)

l = prop('P40', 'any first board, so many gestures (press and release of either button or both) anywhere, any other board that agrees with what is open, so many gestures again, on the listed sizes; level: the three standard sizes and numbers of mines around the standard ones')
for a in ((1, 3, 1, 1, 0), (2, 2, 1, 1, 0), (1, 3, 0, 2, 0), (1, 3, 2, 1, 0), (1, 4, 1, 1, 0)): job(l, 'h_swap', *a, cost=3)
for a in ((8, 8, 9, 11), (16, 16, 39, 41), (16, 30, 98, 100)): job(l, 'h_level', *a)
for a in ((2, 3, 1, 1, 0), (3, 2, 1, 1, 0), (1, 3, 1, 2, 0), (1, 3, 1, 1, 1), (2, 2, 2, 1, 0)): job(l, 'h_swap', *a, tiers=T, cost=9, split=8)

l = prop('P41', 'any board, so many gestures anywhere, the two displays asked for in either order after each of them, on the listed sizes')
for a in ((1, 3, 2), (2, 2, 2), (2, 3, 1), (1, 2, 3), (1, 5, 1)): job(l, 'h_show', *a, cost=2)
for a in ((3, 3, 1), (1, 3, 3), (2, 3, 2)): job(l, 'h_show', *a, tiers=T, cost=9, split=8)

l = prop('P42', 'any of the first so many names taken, videos of the listed numbers of any bytes, saved twice')
for a in ((0, 1), (1, 5), (3, 4), (5, 0), (10, 1)): job(l, 'h_save', *a)
job(l, 'h_save', 12, 300, tiers=T, cost=3)
