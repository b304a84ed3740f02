#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties that have a check)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = ["cshogi/_cshogi.pyx", "src/cshogi.h", "src/position.cpp", "src/position.hpp"]


def P(pid, title, statement, over, text, why, files, mech, note):
    return {"p": {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}},
            "note": note}


ALL = [
    P("C01", "The legal move list is exactly the rules of shogi",
      "In every position with the side to move's king on the board, the legal moves a Board offers (legal_moves, LegalMoveList, their length, "
      "is_game_over) are exactly the moves the rules of shogi allow, each once: pins, checks and double checks, forced and "
      "optional promotion, dead-end squares, two pawns on a file, pawn-drop mate. The pseudo-legal list contains every legal "
      "move and only moves that obey the movement of the pieces.",
      ["inputs", "histories"], "every position reachable by play or set up by SFEN, for both sides",
      "The tests look at a few fixed positions; the move generator has separate code per piece, colour, promotion zone, pin and check kind.",
      ["src/generateMoves.cpp", "src/bitboard.cpp", "src/position.cpp", "cshogi/_cshogi.pyx"],
      [("move generation", "src/generateMoves.cpp generateMoves<Legal/Evasion/NonEvasion>"),
       ("pin and suicide test", "src/position.cpp pseudoLegalMoveIsLegal"), ("pawn-drop mate", "src/position.cpp isPawnDropCheckMate")],
      "Every position is compared with an independent move generator written from the rules (mailbox, full make-and-test)."),
    P("C02", "Exactly the legal moves are accepted, through every channel",
      "A move is legal for is_legal, and accepted by move_from_usi, move_from_csa, push_usi, push_csa and set_position, exactly when "
      "the rules allow it in the current position (push, push_move16 and push_psv take legal moves on trust). Anything else - an illegal, stale, malformed or off-board move - is refused "
      "(False, 0 or ValueError as documented) and leaves the board as it was.",
      ["inputs", "histories"], "every position and every candidate move: legal, nearly legal, of another position, any text",
      "Tests push valid moves; acceptance of wrong ones depends on the captured piece, promotion bits, pins and drops of the current position.",
      CORE + ["src/usi.cpp", "src/parser.h"],
      [("external move validation", "src/position.cpp moveIsLegal/pseudo-legal validation"), ("USI and CSA readers", "src/usi.cpp usiToMove, csaToMove")],
      "Batches of legal and illegal candidates; oracle: the reference generator; refusals must leave every observation unchanged."),
    P("C03", "Taking moves back restores the board; copies are independent",
      "After any sequence of pushes (by any channel), passes, pops, copies and setters, popping a move restores every observable of "
      "the board exactly as it was before that move, and peek/history list exactly the moves played. A copy equals its original "
      "and neither ever changes when the other is used or destroyed; read-only queries change nothing.",
      ["histories"], "every interleaving of operations over several live boards",
      "Tests do a few push/pop pairs; the state chain, copy and pass paths interact only over longer histories.",
      CORE, [("undo", "src/position.cpp undoMove, doNullMove"), ("copying", "cshogi/_cshogi.pyx Board.copy/__copy__/__deepcopy__; src/cshogi.h states_")],
      "Model-based histories over up to four live boards, each shadowed by recorded observations and reference positions."),
    P("C04", "Accessors and constants describe the position",
      "Every accessor of a Board (pieces, piece, piece_type, hands, turn, king squares, check state, move number, iteration "
      "constants) shows exactly the position reached under the rules, including after the turn is set by hand. The named constants "
      "and their symbol tables agree with each other.",
      ["inputs", "histories"], "every position on the way of every history",
      "Tests read single accessors on a handful of positions.",
      CORE + ["cshogi/__init__.py"], [("accessors", "cshogi/_cshogi.pyx Board")],
      "All accessors compared with the reference board on every ply of random games and on random placements."),
    P("C05", "zobrist_hash is a function of the position, and tells positions apart",
      "Two boards with the same pieces, hands and side to move have the same zobrist_hash however they were reached (moves in any "
      "order, take-backs, passes, copies, SFEN, packed formats). Positions that differ in any of these have different hashes in "
      "every comparison made.",
      ["inputs", "histories"], "every pair of histories leading to the same or to neighbouring positions",
      "Incremental hash updates differ per move kind; tests compare at most a few hashes.",
      CORE, [("incremental key", "src/position.cpp doMove/undoMove/doNullMove, computeBoardKey/computeHandKey")],
      "Metamorphic: equal positions by different routes, and neighbours one difference away."),
    P("C06", "Repetition verdicts follow the whole history",
      "is_draw and move_is_draw report draw, win or loss by perpetual check, superior/inferior repetition or none exactly as the "
      "history of the game since the last pass dictates, within the given ply window; move_is_draw equals is_draw after the move.",
      ["histories"], "every history of moves, checks, captures, drops, passes and take-backs, and every window",
      "Verdicts depend on counters carried along the whole game; the tests replay one repetition.",
      CORE, [("repetition", "src/position.cpp isDraw, moveIsDraw"), ("continuous check counters", "src/position.cpp doMove")],
      "Histories that shuffle pieces so positions recur; oracle: a model holding the whole history."),
    P("C07", "The entering-king declaration follows the 27-point rule",
      "is_nyugyoku is true exactly when the side to move has its king in the enemy camp, is not in check, has at least ten other "
      "pieces in the camp and at least 28 (Black) or 27 (White) points counting camp pieces and hand, big pieces five.",
      ["inputs"], "every position",
      "Four conditions with off-by-one thresholds on both sides; tests sample a position or two.",
      ["src/cshogi.h", "src/position.cpp", "cshogi/_cshogi.pyx"], [("declaration", "src/cshogi.h nyugyoku")],
      "Positions generated at the thresholds; oracle: the rule computed from the board."),
    P("C08", "SFEN and position text round-trip; bad text is refused without damage",
      "Writing any position as SFEN (or moving it through set_sfen, set_position, set_pieces) and reading it back gives the same "
      "board, hands, side and move number, and the text is the canonical SFEN of the position. Text that does not describe a "
      "position is refused with an exception and leaves the board as it was.",
      ["inputs"], "every placement of pieces and hands, every corrupted text",
      "Tests round-trip fixed strings.",
      CORE, [("reader", "src/position.cpp Position::set"), ("writer", "src/position.cpp toSFEN"), ("position command", "src/cshogi.h set_position")],
      "Independent SFEN writer/reader and mutation of valid text."),
    P("C09", "Packed positions and packed moves are lossless",
      "to_hcp/set_hcp, to_psfen/set_psfen, move16, move16_from_psv/move16_to_psv and the record dtypes store any position with both "
      "kings and any legal move so that reading back gives the same position and move, in the published bit layouts. Bytes that are not a position are refused without damage.",
      ["inputs"], "every position with both kings, every legal move, every 32-byte string",
      "Huffman-coded boards and hands have dozens of layouts; tests pack a couple.",
      CORE, [("hcp", "src/position.cpp toHuffmanCodedPos/set(hcp)"), ("psfen", "src/position.cpp toPackedSfen/setPackedSfen"),
             ("16-bit moves", "src/cshogi.h __move16_from_psv, __move_from_move16")],
      "Independent encoder and decoder of both formats, cross-fed with the library's."),
    P("C10", "Move integers and move notations say the same thing",
      "For every legal move the integer's fields (to, from, drop, promotion, moved and captured piece), its accessors and its USI and "
      "CSA notations describe the same move, and each notation read back in the position gives the same integer.",
      ["inputs"], "every legal move of every position",
      "Tests convert a few moves.",
      CORE + ["src/move.hpp", "src/usi.cpp"], [("move encoding", "src/move.hpp"), ("notation", "src/move.cpp toUSI/toCSA, src/usi.cpp")],
      "All legal moves of generated positions against the documented layout."),
    P("C11", "Short mate queries are sound, and complete where promised",
      "A move returned by mate_move_in_1ply is legal and mates at once; a move returned by mate_move(n) is a legal check after which "
      "every defence is mated within n plies; is_mate(n) is true only when every reply is. Mates delivered by a knight check or a "
      "check from a square next to the king are found, as is every mate in one when the side to move is in check, and longer mates "
      "that end that way are found by mate_move and is_mate.",
      ["inputs"], "every position without history and every depth 1..7",
      "The one-ply detector is a thousand lines of special cases per piece; tests try a few problems.",
      ["src/position.cpp", "src/mate.cpp", "src/cshogi.h"], [("one-ply mate", "src/position.cpp mateMoveIn1Ply"), ("n-ply mate", "src/mate.cpp")],
      "Full-width reference search decides every claimed mate; missed mates are compared with a reference restricted to the promised class."),
    P("C12", "DfPn neither invents nor misses mates",
      "When DfPn.search (or search_andnode) reports a mate, one exists by consecutive checks, and get_move and get_pv give a legal line of checks that "
      "ends in mate; when a mate of up to five plies exists and the limits allow, it is found. Node, depth and draw-ply limits are respected, the "
      "board is left untouched and a solver can be reused on other positions.",
      ["inputs", "configurations"], "every position without history, every solver configuration and reuse",
      "Proof-number search with hand-dominance table: errors appear only in particular positions.",
      ["src/dfpn.cpp", "src/dfpn.h", "cshogi/_cshogi.pyx"], [("df-pn", "src/dfpn.cpp dfpn_inner"), ("proof table", "src/dfpn.cpp TranspositionTable")],
      "Reference full-width solver proves/refutes; claimed mates are played out."),
    P("C13", "OslDfPn neither invents nor misses mates",
      "When OslDfPn (cshogi.osl.DfPn) reports a mate, one exists by consecutive checks, and get_move and get_pv give a legal line of "
      "checks that ends in mate; when a mate of up to five plies exists and the limits allow, it is found. The board is left "
      "untouched, the node limit bounds the work and a solver can be reused on other positions.",
      ["inputs", "configurations"], "every position without history, every solver configuration and reuse",
      "Ten thousand lines of proof-number search with proof pieces and loop detection: errors appear only in particular positions.",
      ["src/osl_dfpn.cpp", "src/osl_dfpn.h", "cshogi/osl.py"], [("df-pn", "src/osl_dfpn.cpp Impl::attack/defense"), ("line", "src/osl_dfpn.cpp retrieve_pv")],
      "Reference full-width solver proves/refutes; claimed mates are played out."),
    P("C14", "CSA records round-trip and are read exactly",
      "Any game written by CSA.Exporter - start position, names, headers, comments, moves, times, scores, game end, several games in a file - "
      "is read back the same by every CSA reader, as is any record of the published CSA format (P1-P9, PI, P+/P- positions, times and comments in the line of a move, either line ending). The result agrees with "
      "the end code. A record with an illegal move or a broken line raises instead of giving wrong moves.",
      ["inputs"], "every game and every record of the format",
      "Tests read a few files; the reader handles many line kinds whose combinations matter.",
      ["src/parser.h", "cshogi/CSA.py", "cshogi/_cshogi.pyx"], [("reader", "src/parser.h parse_csa*"), ("writer", "cshogi/CSA.py Exporter")],
      "Independent writer and round trips over random games."),
    P("C15", "KIF records round-trip and are read exactly",
      "A game written by KIF.Exporter (even or any named handicap, either encoding) is read back by KIF.Parser with the same moves, names, "
      "handicap, times, comments and result, and so is KIF text written by others in the usual spellings. The KIF text of any legal move is the standard "
      "notation and denotes that move.",
      ["inputs"], "every game, handicap, time and game end",
      "Tests write and read a few moves.",
      ["cshogi/KIF.py"], [("writer", "cshogi/KIF.py Exporter, move_to_kif"), ("reader", "cshogi/KIF.py Parser")],
      "Independent writer of KIF and round trips over random games."),
    P("C16", "KI2 notation is unambiguous and standard, and reads back",
      "The KI2 text of a legal move names exactly that move: no other legal move of the position has the same text, the relative (left, right, straight) and "
      "movement (up, sideways, down) words follow the published rules, and KI2.Parser reads a game written by KI2.Exporter, or laid out by hand, into the same "
      "moves and result.",
      ["inputs"], "every position, however many like pieces reach one square, and every game",
      "The tests give one position per rule; the words depend on all other pieces of the kind and on pins.",
      ["cshogi/KI2.py"], [("disambiguation", "cshogi/KI2.py move_to_ki2"), ("reader", "cshogi/KI2.py Parser")],
      "Specification of the notation on the reference board, uniqueness over all legal moves, round trips."),
    P("C17", "PGN export holds the games played",
      "A PGN file written by PGN.Exporter contains every game once, in order, with its tags, move numbers, all its moves in the documented coordinate "
      "notation and its result.",
      ["inputs"], "every sequence of games", "No test writes PGN.",
      ["cshogi/PGN.py"], [("writer", "cshogi/PGN.py Exporter, move_to_san")], "Independent reader of the files written."),
    P("C18", "Network features and move labels describe the position from the mover's side",
      "piece_planes(_rotate) and the dlshogi features describe the position - pieces, attacks, hands, check, entering king - seen from the side to move, "
      "whatever the array held before where documented, and dlshogi move labels map the legal moves of any position one-to-one, a position and its "
      "mirror image with colours swapped giving equal features and labels.",
      ["inputs"], "every position and legal move",
      "No test looks at the planes; each plane has its own code per colour.",
      ["src/cshogi.h", "cshogi/dlshogi/__init__.py", "cshogi/_cshogi.pyx"], [("features", "src/cshogi.h make_input_features"), ("labels", "src/cshogi.h make_move_label")],
      "Planes computed from the reference board; symmetry."),
    P("C19", "Malformed input is survived",
      "Whatever text, bytes or integers the readers are given - SFEN, position lines, moves, CSA, KIF and KI2 records, packed positions, move codes - the call "
      "returns or raises: it never crashes, never loops for ever and never touches memory it does not own; the board and the reader work on afterwards, moves "
      "read from a damaged CSA record are legal in its position, and what was accepted from packed bytes is one position, which its SFEN describes; a game position that was accepted can be asked anything.",
      ["inputs"], "every string, byte sequence and integer", "Tests feed well-formed data and a few typos; memory errors show in none of them.",
      ["src/position.cpp", "src/usi.cpp", "src/parser.h", "cshogi/KIF.py", "cshogi/KI2.py", "cshogi/_cshogi.pyx"],
      [("SFEN", "src/position.cpp Position::set"), ("packed", "src/position.cpp Position::set_hcp, set_psfen"), ("CSA", "src/parser.h __Parser::parse_csa"), ("moves", "src/usi.cpp csaToMove, usiToMove")],
      "Mutation fuzzing of valid inputs in an AddressSanitizer/UBSan build; the oracle is the sanitizer, legality under the model, and the board working afterwards."),
    P("C20", "Pictures of the board show the position",
      "The BOD, CSA-position, plain text and SVG forms of a board show exactly its pieces, hands, side to move and last move, in any position and "
      "after any history, and drawing them changes nothing.",
      ["inputs", "histories"], "every position and history with moves, passes and take-backs",
      "Tests compare one diagram.",
      ["cshogi/_cshogi.pyx", "cshogi/KIF.py", "src/position.cpp"], [("SVG", "cshogi/_cshogi.pyx Board.to_svg"), ("BOD", "cshogi/KIF.py board_to_bod"), ("CSA", "src/position.cpp toCSAPos")],
      "Four independent readers of the pictures."),
    P("C21", "Book keys are Apery's, for every route to a position",
      "book_key is Apery's published opening-book key of the position however it was reached, and book_key_after(key, move) equals book_key of the position after "
      "the move, for every legal move.",
      ["inputs", "histories"], "every position, move and history",
      "Tests compare at most one key; books made by other programs depend on all of them.",
      ["src/book.cpp", "cshogi/_cshogi.pyx"], [("key", "src/book.cpp Book::bookKey, bookKeyAfter")], "The key computed from its definition in Python."),
    P("C22", "Elo statistics follow their definitions",
      "For any match result Elo gives the point and draw ratio, the logistic rating difference, the 95% error margin (where it is defined) and the likelihood of "
      "superiority by their definitions, and mirrored results give mirrored values.",
      ["inputs"], "every result with at least one game", "No test computes them.",
      ["cshogi/elo.py"], [("formulas", "cshogi/elo.py Elo")], "Definitions computed independently."),
    P("C23", "The USI engine client speaks the protocol and reports what the engine said",
      "Engine sends each command as the USI protocol writes it, waits for exactly the answer that ends it, returns the move, ponder move or mate "
      "line the engine gave, passes every line to the listener, and raises EOFError if the engine dies. InfoListener and MultiPVListener report the last "
      "information given for the best move and for each ranked line.",
      ["inputs", "histories"], "every sequence of commands and engine outputs",
      "The test runs one engine script.",
      ["cshogi/usi/Engine.py"], [("client", "cshogi/usi/Engine.py Engine"), ("listeners", "cshogi/usi/Engine.py InfoListener, MultiPVListener")],
      "Scripted engines behind the process boundary and a model of the protocol."),
    P("C24", "Engine matches follow the rules and are recorded truthfully",
      "In a match run by cshogi.cli each engine is asked only in its turn, with the moves so far and both clocks; each game ends - mate, resignation, "
      "declaration, illegal move, time, fourfold repetition, perpetual check, move limit, adjudication - exactly when and as the rules and settings say, and the "
      "totals, printed results, CSA and PGN records show what was played. The games of a match start from the openings in turn, each for both colours. Pondering changes none of this. The command line passes every setting on, and in a "
      "league of three every pair meets with both colours in each round, with each engine's own settings, and every game is counted.",
      ["histories", "configurations"], "every behaviour of the two engines and every combination of settings",
      "No test plays a match.",
      ["cshogi/cli.py", "cshogi/usi/Engine.py"], [("match loop", "cshogi/cli.py main")], "Scripted engines and a model of the match."),
    P("C25", "The gym environments report games as the rules dictate",
      "ShogiEnv and ShogiVecEnv show the position reached by the steps since the last reset, and report reward, end and draw status - mate, fourfold repetition, "
      "perpetual check by either side, resignation - from the mover's side exactly when the rules say; illegal steps are refused without effect; finished "
      "vector games restart, the others going on undisturbed.",
      ["histories"], "every history of resets and steps", "No test uses the environments.",
      ["cshogi/gym_shogi/envs/shogi_env.pyx", "cshogi/gym_shogi/envs/shogi_vec_env.pyx"], [("step", "shogi_env.pyx ShogiEnv.step"), ("vector step", "shogi_vec_env.pyx ShogiVecEnv.step")],
      "Model of the game and its repetition counts."),
    P("C26", "Web matches follow the rules and list what was played",
      "A match run by cshogi.web.app lets engines and human players move only in turn and only legally, ends exactly as the rules say, and its move list and CSA "
      "record show every move with its number, notation, evaluation and line, and the result. The pages served for a match or a CSA record show the same, whatever the "
      "names and comments contain; a human's clicks on the board become exactly that move, promotion asked about where there is a choice, and reach the match whole; "
      "and the board drawn in the browser shows the position after each move.",
      ["histories", "configurations"], "every behaviour of engines and human input", "No test runs the web match.",
      ["cshogi/web/app.py", "cshogi/web/static/board.js", "cshogi/web/templates/board.html"], [("match", "cshogi/web/app.py match"), ("human player", "cshogi/web/app.py Human"), ("pages", "cshogi/web/app.py run"), ("browser board", "cshogi/web/static/board.js Board"), ("page script", "cshogi/web/templates/board.html")], "Scripted engines, scripted human input, and a model of the match."),
    P("C27", "Turning the board by 180 degrees is a symmetry",
      "rotate_sfen gives the SFEN of the position with board turned and colours swapped, move_rotate the same move on the turned board; both are their own "
      "inverse, and the turned game has the turned legal moves, checks, ends and repetition verdicts at every ply.",
      ["inputs", "histories"], "every position, move and game", "Tests rotate a couple of strings; half of the engine's code is per colour.",
      ["src/cshogi.h", "src/generateMoves.cpp", "src/position.cpp"], [("rotation", "src/cshogi.h __rotate_sfen, __move_rotate")], "Metamorphic: the game and its turned twin played in step."),
]


def main():
    have = [x for x in ALL if os.path.exists(os.path.join(V, "checks", "prop_%s.py" % x["p"]["id"]))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in have:
            assert len(x["p"]["title"]) <= 80, x["p"]["title"]
            f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
    plan = json.load(open(os.path.join(V, "lib", "plan.json")))
    fl = sorted({f for x in have for f in plan[x["p"]["id"]].get("flavours", ["plain"])}, reverse=True)
    m = {"version": 1, "setup_cmd": "python3 lib/build.py ref " + " ".join(fl), "checks": [], "not_applicable": [],
         "notes": "No hooks: the checks use the package's public interface, built from /repo's working tree by its own setup.py."}
    for x in have:
        i = x["p"]["id"]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                            "technique": "property-based testing: generated cases against an explicit oracle, with shrinking",
                            "level": "exploration",
                            "level_note": x["note"] + " Holds on every generated case; nothing is claimed beyond them."})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
