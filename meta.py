#!/usr/bin/env python3
"""Statements of the properties; writes properties.jsonl and MANIFEST.json."""
import json, subprocess, os
HERE = os.path.dirname(os.path.abspath(__file__))
import props
PR, NA = {}, []
U, A, B, S = 'base/src/utils.rs', 'base/src/algorithms.rs', 'base/src/board.rs', 'base/src/safe_board.rs'
M = 'base/src/videos/minesweeper_board.rs'; V = 'base/src/videos/base_video.rs'
def p(id, title, statement, over, text, why, files, state, mechanism, observe, hook='none', note=''):
    assert len(title) <= 80, title
    PR[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=state, where=files[0])], mechanism=[dict(name=mechanism, where=files[0])], observe_at=[observe], hook_needed=None), note=note)
def na(id, reason): NA.append(dict(property=id, reason=reason))
TESTS = 'The repository\'s tests look at a handful of fixed boards (mostly 16x30) or random draws; '

p('P01', 'Openings, islands, 3BV and number counts match their definitions',
  'For every board, the number of openings is the number of 8-connected regions of empty cells, the number of islands is the number of 8-connected regions of numbers that touch no empty cell, the 3BV is the openings plus the numbers that touch no empty cell, and the count of each digit is the number of cells carrying it.',
  'inputs', 'every mine placement on every board shape, narrow boards included', TESTS + 'they cannot cover every mine placement.',
  [U], 'the board of mines and numbers', 'flood fill over a scratch copy (cal_op, cal_isl, cal_bbbv, cal_cell_nums)', 'return values')
p('P03', 'Revealing cells opens exactly what the rules open',
  'Revealing any set of cells of a running game opens those cells, and repeatedly every unflagged hidden neighbour of an opened empty cell, and nothing else; flags and opened cells stay as they are. If a revealed cell is a mine, exactly the revealed mines are shown as exploded and exactly the wrong flags are marked as wrong.',
  'inputs histories', 'every board, every position of hidden, flagged, marked and opened cells, every set of revealed cells', TESTS + 'revealing is only exercised along a few recorded games.',
  [U, M], 'the player\'s view of the board', 'refresh_board: work list flood fill', 'the player\'s view after the call')
p('P04', 'Mine laying: exact mine count, safe start, right numbers, for any randomness',
  'Whatever the random number generator returns, laying n mines on an r x c board gives an r x c board with exactly n mines, none at the start cell, and every other cell shows the number of mines around it.',
  'inputs', 'every outcome of the random number generator, every start cell, size and mine count that fits', 'A test sees one random draw per run; a wrong cell that needs a particular draw, start or shape stays unseen.',
  [U], 'one-dimensional shuffled list laid out column by column', 'laymine', 'returned board')
p('P05', 'Opening-start mine laying: start cell is empty, exact count, right numbers',
  'Whatever the random number generator returns, laying n mines with an opening at the start gives a board of the requested size with exactly n mines, none in the start cell or next to it, and right numbers, whenever the mines fit outside that neighbourhood.',
  'inputs', 'every outcome of the random number generator, every start cell (corners, edges, narrow boards), size and mine count that fits', 'A test sees one random draw per run, on ordinary boards with interior starts.',
  [U], 'shuffled list with the start neighbourhood left out', 'laymine_op', 'returned board')
p('P08', 'Constraint systems say exactly what the visible numbers say',
  'For every correct position, the linear systems built from it list every hidden cell next to an opened one exactly once, and an assignment of mines satisfies all their rows exactly when it satisfies all visible numbers. The split into blocks keeps linked cells together and separates unlinked ones, and the split into groups gathers exactly the blocks of one hidden region, without empty blocks or duplicates.',
  'inputs', 'every board, every position with opened, hidden and judged cells', TESTS + 'a lost or duplicated row needs a particular layout of hidden regions.',
  [U], 'coefficient, cell and number tables', 'refresh_matrix, refresh_matrixs, refresh_matrixses', 'returned matrices')
p('P09', 'Logical deduction never calls a mine safe or a safe cell a mine',
  'On every position whose marks are right, the direct and the subtraction deduction never report a contradiction, never call a mine safe or a safe cell a mine, mark exactly the cells they report, and leave constraint systems that still hold for the real mines and speak only of undecided cells.',
  'inputs', 'every board and every position reached with correct marks', TESTS + 'a wrong deduction needs a particular pattern of overlapping numbers.',
  [A, U], 'constraint systems and marks on the position', 'solve_direct, solve_minus', 'returned cells, marked position, remaining systems')
p('P10', 'Enumeration finds all certain cells on the border and nothing else',
  'On every correct position, the enumeration reports a border cell as safe exactly when no arrangement of mines allowed by the numbers puts a mine there, and as a mine exactly when every allowed arrangement does.',
  'inputs', 'every correct position whose blocks are within the enumeration limit', TESTS + 'completeness and soundness together quantify over all arrangements.',
  [A, U], 'counting tables of the blocks', 'solve_enumerate over combine and cal_table_minenum_recursion', 'returned cells')
p('P12', 'Counting tables count every arrangement exactly once',
  'For every block of a correct position, the table of arrangements by number of mines, and for every cell the number of those in which it is a mine, equal the true counts over all assignments allowed by the numbers; merged cells are exactly those with the same numbers around.',
  'inputs', 'every block of every correct position', TESTS + 'miscounting needs particular overlaps and merged groups.',
  [U], 'merged coefficient tables', 'combine, cal_table_minenum_recursion', 'returned tables')

GT = 'The repository plays a few recorded games; '
p('P15', 'No event at any time breaks a game; refused or late events change nothing',
  'Feeding a game any event at any place on or just outside the board, in any state of the game and the mouse, never panics or overflows; an event that is refused, and every event after the game is over, leaves everything as it was. (A pre-game flag is by definition only set on a hidden cell.)',
  'inputs histories', 'every board, position, phase, mouse state, event and place', GT + 'odd orders of events, places off the board and late events do not occur in them.',
  [M], 'game state, mouse state, counters, view', 'MinesweeperBoard::step', 'public fields and returned result')
p('P16', 'Each event changes the view as the rules say; win and loss are exact',
  'A completed left click opens its cell, a chord opens the unflagged hidden neighbours exactly when the flags around match the number, a right press toggles a flag, nothing else changes the view. The game is lost exactly when a mine is opened, won exactly when every safe cell is open, begins with the first click on an unflagged cell, and is again untouched when the last pre-game flag is taken back.',
  'inputs histories', 'every board, position, phase, mouse state, event and place', GT + 'the view is only compared at the end of a few games.',
  [M, U], 'view and game state', 'MinesweeperBoard::step, left_click, right_click, chording_click, is_win', 'game_board, game_board_state')
p('P17', 'Click counters count every click once, as defined',
  'Left, right and double counts grow by one per completed click of their kind during the game, a right press that placed no flag is refunded when it turns out to be the start of a chord, an effective click is one that opened something, flagged a mine for the first time or chorded successfully, and the flag count is the number of flags on the board. Flags set and taken back before the game begins leave no trace.',
  'inputs histories', 'every board, position, phase, mouse state, event and place', GT + 'most combinations of flags, chords and toggling buttons do not occur in them.',
  [M], 'left, right, double, ce, flag, cells flagged before, middle button', 'MinesweeperBoard::step and its click functions', 'public counters')
p('P18', 'Solved 3BV equals the solved part of the board at every moment',
  'At every moment the solved 3BV is the number of opened numbers that touch no empty cell plus the number of openings whose empty cells are all open, so a won game has solved exactly the 3BV of the board; each event adds exactly the difference it makes.',
  'inputs histories', 'every board, position, event and place', GT + 'the running value is only checked at their ends.',
  [M], 'bbbv_solved', 'cell_is_bbbv, op_num_of_cells, cell_is_op_completed', 'bbbv_solved before and after every event')
p('P19', 'The mouse state follows the buttons; senseless events are refused',
  'After every accepted event the mouse state says which buttons are down and whether a chord is in progress, whatever the order of presses and releases; an event that can be made sense of is accepted and returns what it did (0 nothing, 1 flag, 2 open, 3 chord), an unknown or impossible event is refused.',
  'inputs histories', 'every mouse state, phase, event and place', GT + 'they only contain the orders their players used.',
  [M], 'mouse_state', 'MinesweeperBoard::step', 'mouse_state and returned result')
p('P20', 'A reset game behaves like a new one',
  'After reset a game shows an empty board and, given a board, answers every further event and counts everything exactly as a newly made game on that board, whatever happened before.',
  'histories', 'every board, history and continuation', 'No test resets a game in the middle of play.',
  [M], 'all fields of the game, private ones included', 'MinesweeperBoard::reset', 'public fields and results during the continuation')
p('P21', 'Feeding a list of events equals feeding them one by one',
  'Giving a game a list of events has the same effect and the same acceptance as giving the events one at a time up to the first refused one.',
  'histories', 'every board and list of events', 'Tests feed a few legal lists.',
  [M], 'all fields of the game', 'MinesweeperBoard::step_flow', 'public fields and result')

p('P02', 'Cached answers of a board or position equal freshly computed ones',
  'Whatever is asked of a board or position wrapper, in whatever order and how often, the answer equals the one computed directly for what it holds now, also after another position was put in, and asking changes nothing. The certain cells it lists, basic and further ones together, are exactly the certain border cells, each once.',
  'inputs histories', 'every board or correct position (with the player\'s marks) and every order of questions', 'Tests ask each wrapper one or two questions about one position.',
  [B, A], 'cached values of Board and GameBoard', 'Board::get_*, GameBoard::set_game_board, get_*', 'returned values')
p('P07', 'The encoded board is indistinguishable from the plain one',
  'For every board and every randomness, the encoded board decodes, indexes, iterates, copies and is replaced exactly as the plain one, and games and measures on it equal those on the plain board.',
  'inputs', 'every cell value from -3 to 16, every outcome of the random number generator, every sequence of clicks', 'The masks are random: a test sees one draw, and overflow needs a rare one.',
  [S, M, U], 'three masked numbers per cell', 'encode, decode, Index, Iterator of SafeBoard', 'decoded values, game state, metrics')
p('P11', 'A board is called solvable exactly when pure logic opens all of it',
  'For every board and start on an empty cell, the board is called solvable exactly when opening only cells that are certain from the visible numbers, starting there, opens every safe cell.',
  'inputs', 'every board larger than 6x6 is meant; small boards without the special structures included', TESTS + 'agreement with perfect deduction quantifies over all boards.',
  [U, A], 'the position while it is being solved', 'is_solvable over the deductions', 'returned value')
p('P13', 'Mine and opening probabilities are exact; impossible positions are refused',
  'For every correct position and number or density of mines, the probability of every cell equals its share among all arrangements of that many mines which the numbers allow; ranges, block size and the probability that a cell opens an area are those of that set; numbers or mine counts that no arrangement satisfies are reported as an error.',
  'inputs', 'every correct position (and every contradictory set of numbers), every number of mines', TESTS + 'exactness quantifies over all positions and mine counts.',
  [A, U], 'counting tables, combinations', 'cal_possibility, cal_possibility_onboard, cal_is_op_possibility_cells', 'returned probabilities and ranges')
p('P14', 'A move is judged as certain or guessed exactly as the numbers imply',
  'For every position and cell, whatever the player marked, a cell counts as decidable exactly when it is the same in every arrangement the visible numbers allow, and a click is classed as opened before, safe, needless guess, forced guess or certain death accordingly.',
  'inputs', 'every correct position with any player marks, every clicked cell', TESTS + 'only a few positions are judged.',
  [A], 'the position and its marks', 'is_able_to_solve, is_guess_while_needless', 'returned judgement')
p('P31', 'A board rejected as unsolvable by structure really has a look-alike',
  'Whenever the quick structure test rejects a board, some cells of it, never an empty one and at least one of them safe, can be exchanged between mine and safe without changing any visible number, so no logic can solve it.',
  'inputs', 'every mine placement', 'The boards used in tests contain few of the structures, and none at most places.',
  [U], 'the board', 'unsolvable_structure', 'returned value')
p('P32', 'A chord counts as good exactly when no legal chord beside it opens more',
  'For every position and cell, a chord there is called good exactly when it is legal, opens something, and no legal chord next to it in the same row or column opens more.',
  'inputs', 'every view of numbers, flags and hidden cells, every cell', 'No test covers it at the edges.',
  [U, A], 'the player\'s view', 'is_good_chording', 'returned value')

BV, F = V, 'base/src/videos/'
p('P06', 'Generators of solvable boards: mines, safe start, and solvable when said so',
  'Whatever the random number generator returns, the generators of boards that need no guess return a board of the requested size with exactly the requested number of mines, right numbers and a start cell that can be opened; when they report success the board really can be solved by logic alone from the start, and they report how many boards they drew.',
  'inputs', 'every outcome of the random number generator, start cell, size, mine count and number of attempts', 'A test sees one random draw per run; losing a mine or a false success needs a particular sequence of adjustments.',
  [U, A], 'the board while it is adjusted, counters of attempts', 'laymine_solvable, laymine_solvable_adjust, adjust_step', 'returned board, success flag and attempts')
p('P22', 'A recording holds every accepted event, exactly as it happened',
  'While a game is played through the recorder, every accepted event since the game left its untouched state is recorded once, in order, with its place, its time to the nearest millisecond since the first one, the path of the mouse so far, the state of the mouse, its usefulness, all counters and the positions before and after; refused events leave no record, and forgetting the pre-game flags empties the recording. The clock shown agrees with the records.',
  'histories inputs', 'every board, every list of events at every place inside or outside the board, every timing', 'A recorder test plays one fixed list of clicks on one board.',
  [BV, M], 'list of events, stream of positions, clock', 'BaseVideo::step, step_flow, get_time', 'video_action_state_recorder, game_board_stream, getters')
p('P23', 'Seeking shows the game exactly as it stood at that event or time',
  'Moving playback to an event shows that event; moving to a time shows the last event not later than that time, kept inside the recording. The position, its chances (even ones before the first opening), counters, progress, rates, estimates, mouse place (scaled to the size of the cells on the screen) and path then shown are those of that moment.',
  'histories inputs', 'every recording and every sequence of jumps, forwards and backwards, also to equal or exact times', 'A test jumps to a few times of a few recordings.',
  [BV], 'current event and current time', 'set_current_event_id, set_current_time, getters', 'current_event_id, current_time, getters')
p('P24', 'A video written as EVF and read back is the same video',
  'Whatever an EVF file can hold, a video that is encoded and parsed again has the same board, header, times, texts, checksum and events, and encoding what was parsed gives the same bytes; every time up to the range of the format survives to the millisecond. A parsed file consumes all its bytes.',
  'inputs', 'every board, header value, text and event list of the format', 'Tests convert a few sample files.',
  [F + 'evf_video.rs', BV], 'raw bytes and decoded fields', 'generate_evf_v0_raw_data, EvfVideo::parse_video', 'fields after parsing, raw bytes')
p('P25', 'An AVF file is decoded to exactly the game it describes',
  'Every field, mine and event of a well-formed AVF file is decoded to the value the format assigns: board, event names and places, times to the hundredth, result, player and date, for every level; events the format does not know are not invented.',
  'inputs', 'every well-formed file', 'Tests read a few sample files.',
  [F + 'avf_video.rs', BV], 'bytes read so far', 'AvfVideo::parse_video', 'fields and events after parsing')
p('P26', 'An RMV file is decoded to exactly the game it describes',
  'Every field, mine, pre-game flag and event of a well-formed RMV file is decoded to the value the format assigns, whichever optional sections the header has.',
  'inputs', 'every well-formed file', 'Tests read a few sample files; none has flags set before the game on a board that is not square.',
  [F + 'rmv_video.rs', BV], 'bytes read so far', 'RmvVideo::parse_video', 'fields and events after parsing')
p('P27', 'An MVF file is decoded to exactly the game it describes',
  'Every field, mine and event of a well-formed MVF file of the Viennasweeper kind is decoded to the value the format assigns: button states become presses and releases, and the permuted bits of each record are put back in order.',
  'inputs', 'every well-formed file', 'Tests read a few sample files.',
  [F + 'mvf_video.rs', BV], 'bytes read so far, permutation of bits', 'MvfVideo::parse_video', 'fields and events after parsing')
p('P28', 'No file, however damaged, breaks a parser',
  'Whatever bytes a video file holds, parsing it returns without a panic: either an error, or a board of consistent shape whose mines match the numbers and events that can be shown.',
  'inputs', 'every file: cut anywhere, damaged anywhere, or made of arbitrary bytes', 'Tests read intact samples only.',
  [F + 'avf_video.rs', F + 'rmv_video.rs', F + 'mvf_video.rs', F + 'evf_video.rs', BV], 'read offset and decoded header', 'parse_video of each format, get_u8, get_char and friends', 'result of parse_video, decoded board')
p('P29', 'Analysing a stored game gives what was recorded live',
  'A game that is played, stored as EVF, read back and analysed has the same events, usefulness, mouse states, counters, positions, result and measures as the live recorder had.',
  'histories', 'every board and game played to its end', 'Tests analyse recordings without a live counterpart.',
  [BV, F + 'evf_video.rs', M], 'analysed records and stream of positions', 'BaseVideo::analyse', 'records, stream of positions, static_params')
p('P30', 'The audit verdict follows its rules for every video',
  'The verdict on a video is invalid for unknown software and for failed fairness or checksum marks, uncertain when there are too few events or no readable date, invalid for dates its software excludes, and otherwise valid exactly when the game was completed; asking never panics.',
  'inputs', 'every software name, checksum, date text, number of events and result', 'Tests audit a few sample files.',
  [BV], 'header fields and number of events', 'BaseVideo::is_valid', 'returned verdict')
p('P33', 'Results and setters are available exactly in the states that allow them',
  'Results can be read only once a game is over, signatures can be set only once it is over, cell size only outside a game, playback only of a finished recording, a refused setter changes nothing, an accepted one sets exactly its value; the results then read are those of the game played.',
  'histories inputs', 'every state, value and game', 'Tests call them in the order a player would.',
  [BV], 'state of the recorder, header fields', 'get_*, set_* of BaseVideo', 'returned results and fields')
p('P34', 'A recorder used again records like a new one',
  'After a reset, to the same or another size, a recorder holds nothing of the last game: the next game gives the same records, results and file as with a new recorder.',
  'histories', 'every first game, ended or given up, and every second game', 'No test plays two games with one recorder and compares.',
  [BV, M], 'all fields of the recorder', 'BaseVideo::reset, set_board', 'records, results, raw bytes')
p('P35', 'A board read from a picture is the board in the picture',
  'Recognising a picture of a minefield returns the size and the cells shown in it.',
  'inputs', 'every picture of a board', 'Tests recognise a few pictures.',
  ['base/src/OBR.rs'], 'image and model weights', 'OBR_board, ImageBoard', 'recognised board')
na('P35', 'Recognition runs a neural network (tract-onnx with trained weights) over floating-point images: neither the library nor an oracle for what a picture shows can be encoded for an SMT solver.')
p('P36', 'Generating on several threads finds what there is to find',
  'The generator of solvable boards that searches on several threads ends on every schedule and returns a proper board with the opening asked for; a board it calls solvable is, and it calls one solvable whenever any of its threads came across one.',
  'schedules', 'every outcome of the draws together with the interleavings of the worker threads', 'A test sees one schedule, and hardly ever a board that cannot be solved.',
  [U, A], 'channel and flag shared by the worker threads', 'laymine_solvable_thread', 'returned board and flag',
  note='Interleavings are bounded: threads hand over at draws, waits and ends only, and a thread is passed over a bounded number of times.')
p('P37', 'Every placement of mines is equally likely',
  'With a fair shuffle, the direct and the opening generator return every placement of the mines that leaves the start cell (its whole neighbourhood) free with the same probability: no two outcomes of the shuffle give the same board, and there are as many outcomes as placements.',
  'inputs', 'every pair of outcomes of the shuffle and every start cell', 'A test sees a handful of boards; a bias shows only over all of them.',
  [U], 'shuffled list', 'laymine, laymine_op', 'returned boards',
  note='That the shuffle of the rand crate itself is fair is taken for granted. A generator that draws otherwise than by one shuffle is reported as not decided.')
p('P38', 'The sampler counts every expert board it draws under its 3BV',
  'Sampling n expert boards on several threads returns a histogram of n boards in which each drawn board is counted once, under its 3BV: openings plus numbers that touch no empty cell.',
  'inputs schedules', 'every expert board and every number of games, on any schedule', 'No test looks at a sampled board: a histogram of wrong values looks like one of right ones.',
  [U, A], 'histogram per thread', 'sample_3BVs_exp, cal_bbbv_exp', 'returned histogram')
p('P39', 'Remarks of the analysis are made exactly where they are true',
  'Analysing a finished game marks a click as a dangerous guess, a hard judgement or a needless guess exactly when the position says so, states as luck the product of the chances its guesses had, and marks curved ways of the mouse, jumps away from a safe cell at hand, and textbook sequences of flags and chords where they occur. Analysing any game for everything at once never panics and forgets no remark.',
  'inputs histories', 'every position and click, every way of the mouse, every sequence of flags and chords', 'Tests print the remarks of a few sample games.',
  ['base/src/videos/analyse_methods.rs', BV, A], 'remarks gathered so far', 'analyse_for_features, analyse_*', 'remarks of each event',
  note='A way that is straight but crosses itself, and cells of a size other than 16 pixels for jumps, are not specified.')
p('P40', 'A board exchanged during the game is the board played on from then on',
  'Until the game is over a recorder takes another board of the same size (as in the mode where guesses always succeed); another size, or any board after the end, is refused. What the player sees, the state of the game, all counters and the recording stay as they are, number of mines and level are those of the new board, and every event after that acts by the new board as the rules say: the game is won exactly when all of its safe cells are open.',
  'histories inputs', 'every pair of boards that agree on the open cells, and every history before and after the exchange', 'No test exchanges the board of a running game.',
  [BV, M], 'board of the recorder and of its state machine, memory of the search for the end', 'BaseVideo::set_board, MinesweeperBoard::is_win', 'set_board, getters, minesweeper_board',
  note='The solved part of the 3BV after an exchange is not specified; boards that contradict an open cell are not considered.')
p('P41', 'Showing the mines after the end shows exactly them and changes nothing else',
  'After a win, flagging all mines marks every hidden cell (each a mine) as flagged; after a loss, opening all mines shows every unflagged hidden mine; before the end, or after the other outcome, each does nothing. Counters, state and recording stay, and doing it again changes nothing.',
  'histories inputs', 'every board and history', 'No test asks for either display.',
  [BV], 'the view at the end', 'win_then_flag_all_mine, loss_then_open_all_mine', 'game_board, counters, recording')
p('P42', 'Saving a video never overwrites a file',
  'A video is saved as name.evf or, if that exists, under the first of name(2).evf, name(3).evf, ... that does not; the file then holds exactly the bytes of the video, and no other file is touched.',
  'inputs', 'every set of names already taken and every content', 'No test saves twice.',
  [BV], 'files on disk', 'save_to_evf_file', 'files and their bytes',
  note='Files are kept by the executor in place of the file system (existence, create and truncate, read, write); two programs saving at the same time are not considered.')

def write():
    for k in PR: assert k in props.PROPS or any(n['property'] == k for n in NA), k
    for k in props.PROPS: assert k in PR, k
    with open(HERE + '/properties.jsonl', 'w') as f:
        for k in sorted(PR): d = dict(PR[k]); d.pop('note'); f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    for k in sorted(props.PROPS):
        checks.append(dict(property=k, quick_cmd='python3 check.py %s --tier quick' % k, thorough_cmd='python3 check.py %s --tier thorough' % k, evidence_file='evidence/%s.json' % k,
                           technique=props.PROPS[k].get('technique', 'symbolic execution of the compiled LLVM IR with an SMT solver (z3), counterexamples replayed natively'),
                           level='model_checking', level_note='Bounded: ' + props.PROPS[k]['bounds'] + '. ' + (PR[k]['note'] or 'Sizes beyond the list are not covered.')))
    m = dict(version=1, setup_cmd='python3 check.py --build', hooks=dict(guard='none', enable='no hooks in /repo: the harness uses the public API only', source_commits=[]), checks=checks, not_applicable=NA,
             notes='See DESIGN.md. Genuine defects repaired or recorded are in known_findings.json.')
    json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
    open(HERE + '/MANIFEST.json', 'a').write('\n')
write()
