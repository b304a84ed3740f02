From 9ebe846c85a8af4b5e83bed149c22a6f0badb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:19 +0000
Subject: [PATCH 01/56] fix: reject promotions and dead-end moves the rules
 forbid in external move validation

is_legal, is_pseudo_legal, move_from_usi, move_from_csa and set_position accepted promotion
outside the zone, promotion of gold/king/promoted pieces, and pawns, lances and knights left or
dropped on a rank they can never leave; a king drop read past the hand table.
---
 src/position.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 8cca77f..8632fe4 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -31,6 +31,18 @@ namespace {
     Square king_square_or_square_num(const Bitboard& king_bb) {
         return king_bb ? king_bb.constFirstOneFromSQ11() : SquareNum;
     }
+
+    // 不成の pt を段 r に置くと、行き所のない駒になるか
+    bool isDeadEndPiece(const Color c, const PieceType pt, const Rank r) {
+        switch (pt) {
+        case Pawn: case Lance:
+            return c == Black ? isInFrontOf<Black, Rank2, Rank8>(r) : isInFrontOf<White, Rank2, Rank8>(r);
+        case Knight:
+            return c == Black ? isInFrontOf<Black, Rank3, Rank7>(r) : isInFrontOf<White, Rank3, Rank7>(r);
+        default:
+            return false;
+        }
+    }
 }
 
 const HuffmanCode HuffmanCodedPos::boardCodeTable[PieceNone] = {
@@ -358,8 +370,14 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
 
     if (move.isDrop()) {
         const PieceType ptFrom = move.pieceTypeDropped();
+        if (ptFrom < Pawn || Gold < ptFrom)
+            // 持ち駒にならない駒
+            return false;
         if (!hand(us).exists(pieceTypeToHandPiece(ptFrom)) || piece(to) != Empty)
             return false;
+        if (isDeadEndPiece(us, ptFrom, makeRank(to)))
+            // 行き所のない駒
+            return false;
 
         if (inCheck()) {
             // 王手されているので、合駒でなければならない。
@@ -434,6 +452,14 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
                     return false;
             }
         }
+        else if (move.isPromotion()) {
+            // 成れない駒、または敵陣に関わらない成り
+            if (Gold <= ptFrom || !canPromote(us, from, to))
+                return false;
+        }
+        else if (isDeadEndPiece(us, ptFrom, makeRank(to)))
+            // 行き所のない駒
+            return false;
 
         if (inCheck()) {
             if (ptFrom == King) {
-- 
2.43.0


From 9b9ada971d33f32f5fb780f51496b4c1042bea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:39 +0000
Subject: [PATCH 02/56] fix: USI moves of the wrong length are not moves

A drop with trailing characters ("P*5exyz") was accepted, and an empty or short string was read past its end.
---
 src/usi.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/usi.cpp b/src/usi.cpp
index ea87588..6bfafce 100644
--- a/src/usi.cpp
+++ b/src/usi.cpp
@@ -61,6 +61,8 @@ namespace {
 }
 
 Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
+    if (moveStr.size() != 4 && moveStr.size() != 5)
+        return Move::moveNone();
     Move move;
     if (g_charToPieceUSI.isLegalChar(moveStr[0])) {
         // drop
@@ -72,6 +74,8 @@ Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
         if (!isInSquare(toFile, toRank))
             return Move::moveNone();
         const Square to = makeSquare(toFile, toRank);
+        if (moveStr.size() != 4)
+            return Move::moveNone();
         move = makeDropMove(ptTo, to);
     }
     else {
@@ -85,13 +89,10 @@ Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
         if (!isInSquare(toFile, toRank))
             return Move::moveNone();
         const Square to = makeSquare(toFile, toRank);
-        if (moveStr[4] == '\0')
+        if (moveStr.size() == 4)
             move = makeNonPromoteMove<Capture>(pieceToPieceType(pos.piece(from)), from, to, pos);
-        else if (moveStr[4] == '+') {
-            if (moveStr[5] != '\0')
-                return Move::moveNone();
+        else if (moveStr[4] == '+')
             move = makePromoteMove<Capture>(pieceToPieceType(pos.piece(from)), from, to, pos);
-        }
         else
             return Move::moveNone();
     }
-- 
2.43.0


From 84ae1ab1dd676163ff60d628764ca5959f3882e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:13 +0000
Subject: [PATCH 03/56] fix: a rejected SFEN, position, hcp or psfen leaves the
 board as it was

set_sfen aborted the process on a malformed SFEN instead of raising RuntimeError, and a rejected
set_position/set_hcp/set_psfen left a half-filled board whose state pointer could dangle.
---
 cshogi/_cshogi.pyx |  2 +-
 src/cshogi.h       | 24 ++++++++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 9a56bcb..02c3c48 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -260,7 +260,7 @@ cdef extern from "cshogi.h":
         __Board() except +
         __Board(const string& sfen) except +
         __Board(const __Board& board) except +
-        void set(const string& sfen)
+        void set(const string& sfen) except +
         void set_position(const string& position) except +
         void set_pieces(const int pieces[], const int pieces_in_hand[][7])
         void set_hcp(char* hcp) except +
diff --git a/src/cshogi.h b/src/cshogi.h
index 332665e..ca8d816 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -102,11 +102,12 @@ public:
     ~__Board() {}
 
     void set(const std::string& sfen) {
+        // 例外が発生した場合、元の局面を維持する
+        const Position next(sfen);
         history.clear();
-        pos.set(sfen);
+        pos = next;
     }
     void set_position(const std::string& position) {
-        history.clear();
         std::istringstream ssPosCmd(position);
         std::string token;
         std::string sfen;
@@ -124,25 +125,32 @@ public:
         else
             throw std::runtime_error("incorrect position string");
 
-        pos.set(sfen);
-
+        // 例外が発生した場合、元の局面を維持する
+        __Board board(sfen);
         while (ssPosCmd >> token) {
-            const Move move = usiToMove(pos, token);
+            const Move move = usiToMove(board.pos, token);
             if (!move) throw std::runtime_error("incorrect move string : " + token);
-            push(move.value());
+            board.push(move.value());
         }
+        *this = board;
     }
     void set_pieces(const int pieces[], const int pieces_in_hand[][7]) {
         history.clear();
         pos.set((const Piece*)pieces, pieces_in_hand);
     }
     void set_hcp(char* hcp) {
+        // 例外が発生した場合、元の局面を維持する
+        Position next;
+        next.set_hcp(hcp);
         history.clear();
-        pos.set_hcp(hcp);
+        pos = next;
     }
     void set_psfen(char* psfen) {
+        // 例外が発生した場合、元の局面を維持する
+        Position next;
+        next.set_psfen(psfen);
         history.clear();
-        pos.set_psfen(psfen);
+        pos = next;
     }
 
     void reset() {
-- 
2.43.0


From c8a219ac90e00fcaaaf560b1fd8960c7afeeacdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:35 +0000
Subject: [PATCH 04/56] fix: pop on an empty history raises IndexError, and pop
 undoes a pass

pop() on a board without moves, pop() of a pass and pop_pass() of a move crashed the interpreter.
---
 cshogi/_cshogi.pyx | 10 +++++++---
 src/cshogi.h       |  9 ++++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 02c3c48..f0bbca7 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -268,7 +268,7 @@ cdef extern from "cshogi.h":
         void reset()
         string dump()
         void push(const int move)
-        int pop()
+        int pop() except +
         int peek()
         vector[int] get_history()
         bool is_game_over()
@@ -305,7 +305,7 @@ cdef extern from "cshogi.h":
         void piece_planes_rotate(char* mem)
         void _dlshogi_make_input_features(char* mem1, char* mem2)
         void push_pass()
-        void pop_pass()
+        void pop_pass() except +
         bool isOK()
         unsigned long long bookKey()
         unsigned long long bookKeyAfter(const unsigned long long key, const int move)
@@ -562,7 +562,10 @@ cdef class Board:
         return self.__board.push_pass()
 
     def pop_pass(self):
-        """Pop the last pass move from the board."""
+        """Pop the last pass move from the board.
+
+        :raises IndexError: If the last move is not a pass.
+        """
         self.__board.pop_pass()
 
     def pop(self):
@@ -570,6 +573,7 @@ cdef class Board:
 
         :return: The move as an integer.
         :rtype: int
+        :raises IndexError: If there is no move to pop.
         """
         return self.__board.pop()
 
diff --git a/src/cshogi.h b/src/cshogi.h
index ca8d816..7ca74f9 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -170,8 +170,13 @@ public:
     }
 
     int pop() {
+        if (history.empty())
+            throw std::out_of_range("pop from empty history");
         const auto move = history.back().first;
-        pos.undoMove(move);
+        if (move.value() == Move::moveNull().value())
+            pos.doNullMove<false>(history.back().second);
+        else
+            pos.undoMove(move);
         history.pop_back();
         return move.value();
     }
@@ -188,6 +193,8 @@ public:
         pos.doNullMove<true>(history.back().second);
     }
     void pop_pass() {
+        if (history.empty() || history.back().first.value() != Move::moveNull().value())
+            throw std::out_of_range("the last move is not a pass");
         pos.doNullMove<false>(history.back().second);
         history.pop_back();
     }
-- 
2.43.0


From c23797b8e7a3840655b162f03faa04d39765a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:43 +0000
Subject: [PATCH 05/56] fix: to_bod after a pass does not push the pass as a
 move

---
 cshogi/_cshogi.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index f0bbca7..d14c12f 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -126,6 +126,7 @@ MAX_PIECES_IN_HAND = [
 ]
 
 MOVE_NONE = 0
+MOVE_NULL = 129
 
 REPETITION_TYPES = [
     NOT_REPETITION, REPETITION_DRAW, REPETITION_WIN, REPETITION_LOSE,
@@ -1106,7 +1107,7 @@ cdef class Board:
         """
         import cshogi.KIF
         history = self.history
-        if len(history) > 0:
+        if len(history) > 0 and history[-1] != MOVE_NULL:
             move = self.pop()
             move_str = '\n手数＝' + str(self.move_number) + '　' + cshogi.KIF.move_to_bod(move, self) + '　まで'
             self.push(move)
-- 
2.43.0


From cee7732f50eaabfc5ee94c9bae48606207993a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:05 +0000
Subject: [PATCH 06/56] fix: clear the entering-king planes of features2 before
 filling them

With the entering-king features enabled, the planes beyond the check plane kept what the buffer held before.
---
 src/cshogi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 7ca74f9..ac7cbcb 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -368,7 +368,7 @@ public:
         float(* const features2_hand)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum] = reinterpret_cast<float(* const)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum]>(mem2);
 
         std::fill_n((float*)features1, sizeof(features1_t) / sizeof(float), 0);
-        std::fill_n((float*)features2, sizeof(features2_t) / sizeof(float), 0);
+        std::fill_n((float*)features2, __dlshogi_get_features2_num() * (int)SquareNum, 0);
 
         const Bitboard occupied_bb = pos.occupiedBB();
 
-- 
2.43.0


From 6568185d5e558f59735b4f418ba6ba39c8324c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:05 +0000
Subject: [PATCH 07/56] fix: rotate_sfen keeps both digits of a hand count of
 ten or more

---
 src/cshogi.h | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index ac7cbcb..0d686e3 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -622,32 +622,23 @@ std::string __rotate_sfen(const std::string& sfen) {
         std::string senteHand, goteHand;
 
         // 持ち駒を解析
+        std::string count;
         for (int i = 0; i < hand.length(); i++) {
             char c = hand[i];
 
-            if (c >= '2' && c <= '9') {
-                // 数字の場合、次の駒と組み合わせる
-                i++;
-                if (i < hand.length()) {
-                    char piece = hand[i];
-                    if (piece >= 'A' && piece <= 'Z') {
-                        senteHand += c;
-                        senteHand += piece;
-                    }
-                    else {
-                        goteHand += c;
-                        goteHand += piece;
-                    }
-                }
+            if (c >= '0' && c <= '9') {
+                // 数字の場合、次の駒と組み合わせる(2桁の場合がある)
+                count += c;
             }
             else if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')) {
                 // 駒の場合
                 if (c >= 'A' && c <= 'Z') {
-                    senteHand += c;
+                    senteHand += count + c;
                 }
                 else {
-                    goteHand += c;
+                    goteHand += count + c;
                 }
+                count.clear();
             }
         }
 
-- 
2.43.0


From 5ac3bbb80ee74fca873b6708f9aad6ed7915b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:23 +0000
Subject: [PATCH 08/56] fix: hcp and psfen never read or write past their 32
 bytes

Bytes that are not a position (a king square off the board, codes running past the end, more pieces
than exist) were read out of bounds instead of raising RuntimeError, and encoding a position without
one of the kings wrote past the caller's buffer.
---
 src/position.cpp | 74 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 8632fe4..84fc80b 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3041,8 +3041,9 @@ std::string Position::toCSAPos() const {
 }
 
 void Position::toHuffmanCodedPos(u8* data) const {
-    std::fill(data, data + 32, 0);
-    BitStream bs(data);
+    // 玉がない局面や駒が40枚を超える局面では256bitを超えるため、作業領域に書き込んでから先頭の256bitを出力する。
+    u8 buf[256] = {};
+    BitStream bs(buf);
     // 手番 (1bit)
     bs.putBit(turn());
 
@@ -3080,12 +3081,13 @@ void Position::toHuffmanCodedPos(u8* data) const {
         for (int32_t n = 0; n < hp_count[hp]; ++n)
             bs.putBits(hc.code, hc.numOfBits);
     }
-    assert(bs.curr() == 0);
+    std::copy(buf, buf + 32, data);
 }
 
 void Position::toPackedSfen(u8* data) const {
-    std::fill(data, data + 32, 0);
-    BitStream bs(data);
+    // 玉がない局面や駒が40枚を超える局面では256bitを超えるため、作業領域に書き込んでから先頭の256bitを出力する。
+    u8 buf[256] = {};
+    BitStream bs(buf);
     // 手番 (1bit)
     bs.putBit(turn());
 
@@ -3123,7 +3125,7 @@ void Position::toPackedSfen(u8* data) const {
         for (int32_t n = 0; n < hp_count[hp]; ++n)
             bs.putBits(hc.code, hc.numOfBits);
     }
-    assert(bs.curr() == 0);
+    std::copy(buf, buf + 32, data);
 }
 
 bool Position::isOK() const {
@@ -3466,14 +3468,22 @@ void Position::set_hcp(const char* hcp_data) {
     HuffmanCodedPos tmp(hcp_data); // ローカルにコピー
     BitStream bs(tmp.data);
 
+    // 駒の残り枚数
+    int hp_count[HandPieceNum] = {18, 4, 4, 4, 4, 2, 2};
+
     // 手番
     turn_ = static_cast<Color>(bs.getBit());
 
     // 玉の位置
     Square sq0 = (Square)bs.getBits(7);
     Square sq1 = (Square)bs.getBits(7);
-    setPiece(BKing, static_cast<Square>(sq0));
-    setPiece(WKing, static_cast<Square>(sq1));
+    // 玉がない場合は SquareNum
+    if (SquareNum < sq0 || SquareNum < sq1 || (sq0 == sq1 && sq0 != SquareNum))
+        goto INCORRECT_HUFFMAN_CODE;
+    if (sq0 != SquareNum)
+        setPiece(BKing, sq0);
+    if (sq1 != SquareNum)
+        setPiece(WKing, sq1);
 
     // 盤上の駒
     for (Square sq = SQ11; sq < SquareNum; ++sq) {
@@ -3481,11 +3491,16 @@ void Position::set_hcp(const char* hcp_data) {
             continue;
         HuffmanCode hc = {0, 0};
         while (hc.numOfBits <= 8) {
+            if (bs.data() == std::end(tmp.data))
+                goto INCORRECT_HUFFMAN_CODE;
             hc.code |= bs.getBit() << hc.numOfBits++;
             if (HuffmanCodedPos::boardCodeToPieceHash.value(hc.key) != PieceNone) {
                 const Piece pc = HuffmanCodedPos::boardCodeToPieceHash.value(hc.key);
-                if (pc != Empty)
-                    setPiece(HuffmanCodedPos::boardCodeToPieceHash.value(hc.key), sq);
+                if (pc != Empty) {
+                    if (--hp_count[pieceTypeToHandPiece(pieceToPieceType(pc))] < 0)
+                        goto INCORRECT_HUFFMAN_CODE;
+                    setPiece(pc, sq);
+                }
                 break;
             }
         }
@@ -3495,18 +3510,25 @@ void Position::set_hcp(const char* hcp_data) {
     while (bs.data() != std::end(tmp.data)) {
         HuffmanCode hc = {0, 0};
         while (hc.numOfBits <= 8) {
+            if (bs.data() == std::end(tmp.data))
+                // 玉がない局面では、最後の符号が途切れる
+                goto HAND_END;
             hc.code |= bs.getBit() << hc.numOfBits++;
             const Piece pc = HuffmanCodedPos::handCodeToPieceHash.value(hc.key);
             if (pc == Empty)
                 break;
             if (pc != PieceNone) {
-                hand_[pieceToColor(pc)].plusOne(pieceTypeToHandPiece(pieceToPieceType(pc)));
+                const HandPiece hp = pieceTypeToHandPiece(pieceToPieceType(pc));
+                if (--hp_count[hp] < 0)
+                    goto INCORRECT_HUFFMAN_CODE;
+                hand_[pieceToColor(pc)].plusOne(hp);
                 break;
             }
         }
         if (HuffmanCodedPos::handCodeToPieceHash.value(hc.key) == PieceNone)
             goto INCORRECT_HUFFMAN_CODE;
     }
+HAND_END:
 
     kingSquare_[Black] = king_square_or_square_num(bbOf(King, Black));
     kingSquare_[White] = king_square_or_square_num(bbOf(King, White));
@@ -3532,14 +3554,22 @@ void Position::set_psfen(const char* psfen_data) {
     PackedSfen tmp(psfen_data); // ローカルにコピー
     BitStream bs(tmp.data);
 
+    // 駒の残り枚数
+    int hp_count[HandPieceNum] = {18, 4, 4, 4, 4, 2, 2};
+
     // 手番
     turn_ = static_cast<Color>(bs.getBit());
 
     // 玉の位置
     Square sq0 = (Square)bs.getBits(7);
     Square sq1 = (Square)bs.getBits(7);
-    setPiece(BKing, static_cast<Square>(sq0));
-    setPiece(WKing, static_cast<Square>(sq1));
+    // 玉がない場合は SquareNum
+    if (SquareNum < sq0 || SquareNum < sq1 || (sq0 == sq1 && sq0 != SquareNum))
+        goto INCORRECT_HUFFMAN_CODE;
+    if (sq0 != SquareNum)
+        setPiece(BKing, sq0);
+    if (sq1 != SquareNum)
+        setPiece(WKing, sq1);
 
     // 盤上の駒
     for (Square sq = SQ11; sq < SquareNum; ++sq) {
@@ -3547,11 +3577,16 @@ void Position::set_psfen(const char* psfen_data) {
             continue;
         HuffmanCode hc = { 0, 0 };
         while (hc.numOfBits <= 8) {
+            if (bs.data() == std::end(tmp.data))
+                goto INCORRECT_HUFFMAN_CODE;
             hc.code |= bs.getBit() << hc.numOfBits++;
             if (PackedSfen::boardCodeToPieceHash.value(hc.key) != PieceNone) {
                 const Piece pc = PackedSfen::boardCodeToPieceHash.value(hc.key);
-                if (pc != Empty)
-                    setPiece(PackedSfen::boardCodeToPieceHash.value(hc.key), sq);
+                if (pc != Empty) {
+                    if (--hp_count[pieceTypeToHandPiece(pieceToPieceType(pc))] < 0)
+                        goto INCORRECT_HUFFMAN_CODE;
+                    setPiece(pc, sq);
+                }
                 break;
             }
         }
@@ -3561,18 +3596,25 @@ void Position::set_psfen(const char* psfen_data) {
     while (bs.data() != std::end(tmp.data)) {
         HuffmanCode hc = { 0, 0 };
         while (hc.numOfBits <= 8) {
+            if (bs.data() == std::end(tmp.data))
+                // 玉がない局面では、最後の符号が途切れる
+                goto HAND_END;
             hc.code |= bs.getBit() << hc.numOfBits++;
             const Piece pc = PackedSfen::handCodeToPieceHash.value(hc.key);
             if (pc == Empty)
                 break;
             if (pc != PieceNone) {
-                hand_[pieceToColor(pc)].plusOne(pieceTypeToHandPiece(pieceToPieceType(pc)));
+                const HandPiece hp = pieceTypeToHandPiece(pieceToPieceType(pc));
+                if (--hp_count[hp] < 0)
+                    goto INCORRECT_HUFFMAN_CODE;
+                hand_[pieceToColor(pc)].plusOne(hp);
                 break;
             }
         }
         if (PackedSfen::handCodeToPieceHash.value(hc.key) == PieceNone)
             goto INCORRECT_HUFFMAN_CODE;
     }
+HAND_END:
 
     kingSquare_[Black] = king_square_or_square_num(bbOf(King, Black));
     kingSquare_[White] = king_square_or_square_num(bbOf(King, White));
-- 
2.43.0


From 2d11ecac86536f3dc6cde105887e803dd49a9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:15 +0000
Subject: [PATCH 09/56] fix: reject SFENs with a promoted gold or king, a king
 in hand or an impossible hand count

They were accepted and silently became another position.
---
 src/position.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 84fc80b..01b17ca 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -32,6 +32,20 @@ namespace {
         return king_bb ? king_bb.constFirstOneFromSQ11() : SquareNum;
     }
 
+    // SFEN で + に続けられる駒の文字か
+    bool isPromotableChar(const char c) {
+        return g_charToPieceUSI.isLegalChar(c) && pieceToPieceType(g_charToPieceUSI.value(c)) < Gold;
+    }
+
+    // 持ち駒の最大枚数
+    int maxHandCount(const PieceType pt) {
+        switch (pt) {
+        case Pawn: return 18;
+        case Bishop: case Rook: return 2;
+        default: return 4;
+        }
+    }
+
     // 不成の pt を段 r に置くと、行き所のない駒になるか
     bool isDeadEndPiece(const Color c, const PieceType pt, const Rank r) {
         switch (pt) {
@@ -3366,7 +3380,9 @@ void Position::set(const std::string& sfen) {
 
     // 盤上の駒
     while (ss.get(token) && token != ' ') {
-        if (isdigit(token))
+        if (promoteFlag == Promoted && !isPromotableChar(token))
+            goto INCORRECT;
+        else if (isdigit(token))
             sq += DeltaE * (token - '0');
         else if (token == '/')
             sq += (DeltaW * 9) + DeltaS;
@@ -3402,11 +3418,14 @@ void Position::set(const std::string& sfen) {
     for (int digits = 0; ss.get(token) && token != ' '; ) {
         if (token == '-')
             memset(hand_, 0, sizeof(hand_));
-        else if (isdigit(token))
+        else if (isdigit(token) && digits < 10)
             digits = digits * 10 + token - '0';
         else if (g_charToPieceUSI.isLegalChar(token)) {
             // 持ち駒を32bit に pack する
             const Piece piece = g_charToPieceUSI.value(token);
+            const PieceType pt = pieceToPieceType(piece);
+            if (pt == King || maxHandCount(pt) < digits)
+                goto INCORRECT;
             setHand(piece, (digits == 0 ? 1 : digits));
 
             digits = 0;
-- 
2.43.0


From 12a776c7c5aa4725f05201b64f8bac4948b0caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:03 +0000
Subject: [PATCH 10/56] fix: a CSA "'** " comment before the first move is part
 of the game's comment

It was stored at index -1 of the score and comment lists, which crashed the interpreter; a score out of
range of int made the whole record unreadable.
---
 src/parser.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index 4b644e1..079851d 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -161,11 +161,18 @@ namespace parser {
                         auto last = line.find_first_of(" ", 4);
                         if (last == std::string::npos)
                             last = line.size();
-                        try {
-                            scores[moves.size() - 1] = std::stoi(line.substr(4, last - 4));
+                        if (moves.empty()) {
+                            // 指し手より前のコメント
+                            comment += line + "\n";
+                        }
+                        else {
+                            try {
+                                scores[moves.size() - 1] = std::stoi(line.substr(4, last - 4));
+                            }
+                            catch (std::invalid_argument&) {}
+                            catch (std::out_of_range&) {}
+                            comments[moves.size() - 1] = line.substr(4);
                         }
-                        catch (std::invalid_argument&) {}
-                        comments[moves.size() - 1] = line.substr(4);
                     }
                     else {
                         comment += line + "\n";
-- 
2.43.0


From d814bbe794fa9fe0ea1b0f90189a381832347d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:03 +0000
Subject: [PATCH 11/56] fix: an illegal move in a CSA record raises ValueError

It was played as the null value on the internal position, which corrupts or crashes it.
---
 src/parser.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.h b/src/parser.h
index 079851d..bf96209 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -183,7 +183,8 @@ namespace parser {
                                 const auto reason = line.substr(9, found_pos - 9);
                                 if (reason == "illegal move") {
                                     endgame = "%ILLEGAL_MOVE";
-                                    lose_color = pos.turn();
+                                    if (pos_initialized)
+                                        lose_color = pos.turn();
                                 }
                                 else if (reason == "max_moves") {
                                     endgame = "%JISHOGI";
@@ -218,6 +219,8 @@ namespace parser {
                         if (!pos_initialized)
                             throw std::domain_error("Board infomation is not defined before a special move");
                         Move move = csaToMove(pos, line.substr(1, 6));
+                        if (!move)
+                            throw std::domain_error("Illegal move: " + line);
                         moves.push_back(move.value());
                         states->push_back(StateInfo());
                         pos.doMove(move, states->back());
-- 
2.43.0


From 21f1148905e6c6f1f8deb76b4932fc59bb82a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:03 +0000
Subject: [PATCH 12/56] fix: CSA P+/P- lines place the piece on the square they
 name

The file and rank digits were swapped and the file was mirrored, and squares no line mentions were uninitialised.
---
 src/parser.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index bf96209..33d7dd9 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -296,7 +296,7 @@ namespace parser {
             int file_index;
             Piece piece;
             int pieces_in_hand[PieceNone] = {};
-            Piece pieces_in_board[9][9];
+            Piece pieces_in_board[9][9] = {}; // Empty
 
             // ex.) P1 - KY - KE - GI - KI - OU - KI - GI - KE - KY
             for (auto line : position_block_lines) {
@@ -322,18 +322,21 @@ namespace parser {
                     if (itrColor != COLOR_SYMBOLS.end()) {
                         int index = 2;
                         while (index < line.size()) {
-                            rank_index = std::stoi(line.substr(index, 1));
-                            index += 1;
                             file_index = std::stoi(line.substr(index, 1));
                             index += 1;
+                            rank_index = std::stoi(line.substr(index, 1));
+                            index += 1;
                             piece = stringToPieceCSA.value((*itrColor) + line.substr(index, 2));
                             index += 2;
                             if (rank_index == 0 && file_index == 0) {
                                 // piece in hand
                                 pieces_in_hand[piece] += 1;
                             }
+                            else if (rank_index == 0 || file_index == 0) {
+                                throw std::domain_error("Invalid square: " + line);
+                            }
                             else {
-                                pieces_in_board[(rank_index - 1)][(file_index - 1)] = piece;
+                                pieces_in_board[(rank_index - 1)][(9 - file_index)] = piece;
                             }
                         }
                     }
-- 
2.43.0


From 141668816e56b597afcf5db6523c54b28e91486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:03 +0000
Subject: [PATCH 13/56] fix: an unknown piece in a CSA position raises
 ValueError instead of reading past the table

---
 src/parser.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index 33d7dd9..00d8d0f 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -34,7 +34,10 @@ namespace parser {
             (*this)["RY"] = Dragon;
         }
         PieceType value(const std::string& str) const {
-            return this->find(str)->second;
+            const auto itr = this->find(str);
+            if (itr == this->end())
+                throw std::domain_error("Invalid piece: " + str);
+            return itr->second;
         }
     };
     const StringToPieceTypeCSA stringToPieceTypeCSA;
@@ -73,7 +76,10 @@ namespace parser {
             (*this)["-RY"] = WDragon;
         }
         Piece value(const std::string& str) const {
-            return this->find(str)->second;
+            const auto itr = this->find(str);
+            if (itr == this->end())
+                throw std::domain_error("Invalid piece: " + str);
+            return itr->second;
         }
     };
     const StringToPieceCSA stringToPieceCSA;
-- 
2.43.0


From 600cc2fed02e742f39cb1789e3934e1141391650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:03 +0000
Subject: [PATCH 14/56] fix: CSA move comments are UTF-8 like the rest of the
 record

---
 cshogi/_cshogi.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index d14c12f..83f61ca 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -1602,7 +1602,7 @@ cdef class Parser:
         :return: The list of comments for each move of the game.
         :rtype: list
         """
-        return [comment.decode('ascii') for comment in self.__parser.comments]
+        return [comment.decode('utf-8') for comment in self.__parser.comments]
 
     @property
     def win(self):
-- 
2.43.0


From 5a9fc90a093a29674cd5cfce6341d93870b2a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:47 +0000
Subject: [PATCH 15/56] fix: CSA.Exporter.info accepts a SFEN string and
 terminates every comment line

---
 cshogi/CSA.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index 2a5a820..2baafbd 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -10,7 +10,7 @@ JAPANESE_END_GAMES = {
     '%TIME_UP': '切れ負け',
     '%ILLEGAL_MOVE': '反則負け',
     '%JISHOGI': '持将棋',
-    '%KACHI': '入力宣言',
+    '%KACHI': '入玉宣言',
 }
 
 class Exporter:
@@ -62,11 +62,10 @@ class Exporter:
                 self.f.write('N' + turn + name)
                 self.f.write('\n')
         if comment:
-            if comment[0] == "'":
-                self.f.write(comment)
-            else:
-                self.f.write("'")
-                self.f.write(comment)
+            for line in comment.splitlines():
+                if line[:1] != "'":
+                    self.f.write("'")
+                self.f.write(line)
                 self.f.write('\n')
         if var_info:
             for k, v in var_info.items():
@@ -86,7 +85,7 @@ class Exporter:
                 self.f.write('PI\n+\n')
             else:
                 self.f.write(csa_pos)
-            self.turn = init_board.turn
+            self.turn = board.turn
         else:
             self.f.write('PI\n+\n')
             self.turn = cshogi.BLACK
-- 
2.43.0


From cbe44732a3ca93f2c13db558623c4be514e1ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:47 +0000
Subject: [PATCH 16/56] fix: PGN names a promoted knight +N, not +K

---
 cshogi/PGN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/PGN.py b/cshogi/PGN.py
index a967e24..4fd3310 100644
--- a/cshogi/PGN.py
+++ b/cshogi/PGN.py
@@ -21,7 +21,7 @@ PGN_HAND_PIECES = [
 PGN_PIECE_TYPES = [
     None,
     'P', 'L', 'N', 'S', 'B', 'R', 'G', 'K',
-    '+P', '+L', '+K', '+S', '+B', '+R',
+    '+P', '+L', '+N', '+S', '+B', '+R',
 ]
 
 def move_to_san(move):
-- 
2.43.0


From 75fe93cb5de7cffa93ac8c76122b200dcb6ac5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:47 +0000
Subject: [PATCH 17/56] fix: an engine that closes its output raises EOFError
 instead of looping forever

---
 cshogi/usi/Engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index f810001..f5df8e7 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -214,7 +214,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip()
             if line[:7] == b'id name':
@@ -241,7 +241,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
@@ -280,7 +280,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode('shift-jis')
             if listener:
@@ -354,7 +354,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
@@ -386,7 +386,7 @@ class Engine:
         while True:
             self.proc.stdout.flush()
             line = self.proc.stdout.readline()
-            if line == '':
+            if line == b'':
                 raise EOFError()
             line = line.strip().decode(locale.getpreferredencoding())
             if listener:
-- 
2.43.0


From 8d1d5d9567c6141810ea52503be25f619f30fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:04 +0000
Subject: [PATCH 18/56] fix: InfoListener keeps non-numeric info values such as
 'mate +' and 'lowerbound'

---
 cshogi/usi/Engine.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cshogi/usi/Engine.py b/cshogi/usi/Engine.py
index f5df8e7..4f90c5e 100644
--- a/cshogi/usi/Engine.py
+++ b/cshogi/usi/Engine.py
@@ -32,7 +32,7 @@ class InfoListener:
 
     @staticmethod
     def _split_info(m: re.Match) -> Dict:
-        items = m[1].strip().split(' ')
+        items = m[1].split()
         info_dict = {}
         while items:
             name = items.pop(0)
@@ -45,11 +45,16 @@ class InfoListener:
             elif name == 'score':
                 name = items.pop(0)
                 info_dict['score'] = name
+            elif name in ('lowerbound', 'upperbound'):
+                # flags without a value
+                info_dict[name] = True
+                continue
 
+            value = items.pop(0)
             try:
-                info_dict[name] = int(items.pop(0))
+                info_dict[name] = int(value)
             except ValueError:
-                info_dict[name] = items.pop(0)
+                info_dict[name] = value
 
         info_dict['pv'] = (m[2] + m[3]).split(' ')
         return info_dict
@@ -117,10 +122,10 @@ class InfoListener:
                 mate = info['mate']
             else:
                 return None
-            if mate == '+' or mate > 0:
-                return self.__mate_score
-            elif mate == '-' or mate <= 0:
+            if mate == '-' or mate != '+' and mate <= 0:
                 return -self.__mate_score
+            else:
+                return self.__mate_score
                 
     @property
     def pv(self) -> List[str]:
-- 
2.43.0


From 4774faf15d95d9c7370eaf07045d3ef6a7e53746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:04 +0000
Subject: [PATCH 19/56] fix: a match lost by perpetual check ends its CSA
 record with %ILLEGAL_MOVE

---
 cshogi/cli.py     | 2 +-
 cshogi/web/app.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index f12c66b..ed99dac 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -445,7 +445,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         elif is_repetition_lose:
             win = opponent(board.turn)
             print('まで{}手で{}の反則負け'.format(board.move_number - 1, '先手' if win == WHITE else '後手'))
-            csa_endgame = 'ILLEGAL_MOVE'
+            csa_endgame = '%ILLEGAL_MOVE'
         elif is_timeup:
             win = opponent(board.turn)
             print('まで{}手で{}の切れ負け'.format(board.move_number - 1, '先手' if win == WHITE else '後手'))
diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 8dd8c7b..4866778 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -218,7 +218,7 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
     elif is_repetition_lose:
         win = opponent(board.turn)
         result = '{}の反則負け'.format('先手' if win == WHITE else '後手')
-        csa_endgame = 'ILLEGAL_MOVE'
+        csa_endgame = '%ILLEGAL_MOVE'
     elif is_timeup:
         win = opponent(board.turn)
         result = '{}の切れ負け'.format('先手' if win == WHITE else '後手')
-- 
2.43.0


From f627a1ff6d5a62f9fc65b674e96675a66197d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:04 +0000
Subject: [PATCH 20/56] fix: the initial position counts towards fourfold
 repetition in matches

---
 cshogi/cli.py     | 1 +
 cshogi/web/app.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index ed99dac..32a8055 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -235,6 +235,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         moves = []
         usi_moves = []
         repetition_hash = defaultdict(int)
+        repetition_hash[board.zobrist_hash()] += 1
         if csa:
             engine_names = [engine.name for engine in engines_order]
             if not multi_csa:
diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 4866778..9b36861 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -97,6 +97,7 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
     board = Board()
     usi_moves = []
     repetition_hash = defaultdict(int)
+    repetition_hash[board.zobrist_hash()] += 1
 
     # 新規ゲーム
     for engine in engines:
-- 
2.43.0


From 90c68409add7cbd6aea292ff0af092a564eb60de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:04 +0000
Subject: [PATCH 21/56] fix: web match with a time control no longer fails on
 an undefined name

---
 cshogi/web/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 9b36861..b3b8d1b 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -137,8 +137,8 @@ def match(moves, engine1=None, engine2=None, options1={}, options2={}, names=Non
         elapsed_time = perf_counter() - start_time
 
         if remain_time[board.turn] is not None:
-            if inc_time[board.turn] is not None:
-                remain_time[board.turn] += inc_time[board.turn]
+            if inc is not None:
+                remain_time[board.turn] += inc
             remain_time[board.turn] -= math.ceil(elapsed_time * 1000)
 
         if bestmove == 'resign':
-- 
2.43.0


From a642b48898db7c1c1616ebe2d70e7beb550c3da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:04 +0000
Subject: [PATCH 22/56] fix: mate_win adjudication only accepts a legal move
 and records it in the PGN

---
 cshogi/cli.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 32a8055..1224dc5 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -355,11 +355,14 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             if mate_win:
                 if score is not None and score == 100000:
                     move = board.move_from_usi(bestmove)
-                    if csa:
-                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
-                    board.push(move)
-                    is_game_over = True
-                    break
+                    if board.is_legal(move):
+                        if csa:
+                            csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
+                        board.push(move)
+                        moves.append(move)
+                        usi_moves.append(bestmove)
+                        is_game_over = True
+                        break
 
             if bestmove == 'resign':
                 # 投了
-- 
2.43.0


From 65e22fe3f2bd9c49e72e5bfb93e0ed5fcc04e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:01 +0000
Subject: [PATCH 23/56] =?UTF-8?q?fix:=20KIF=20impasse=20(=E6=8C=81?=
 =?UTF-8?q?=E5=B0=86=E6=A3=8B)=20records=20count=20the=20moves=20played=20?=
 =?UTF-8?q?and=20parse=20as=20%JISHOGI?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cshogi/KIF.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 2c0244e..eb98617 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -278,6 +278,9 @@ class Parser:
                             else:
                                 win = WHITE_WIN
                                 endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                        elif m.group(2) == '持将棋':
+                            win = DRAW
+                            endgame = '%JISHOGI'
                         elif m.group(2) == '中断':
                             win = None
                             endgame = '%CHUDAN'
@@ -501,7 +504,7 @@ class Exporter:
         if reason == 'resign':
             self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
         elif reason == 'draw':
-            self.kifu.write('まで{}手で持将棋\n'.format(self.move_number + 1))
+            self.kifu.write('まで{}手で持将棋\n'.format(self.move_number - 1))
         elif reason == 'win':
             self.kifu.write('まで{}手で入玉宣言\n'.format(self.move_number - 1))
         elif reason == 'sennichite':
-- 
2.43.0


From ae08772da790e8b719bae5c534c76c549dae3235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:01 +0000
Subject: [PATCH 24/56] fix: KIF.Exporter names the right side in games that
 White starts

---
 cshogi/KIF.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index eb98617..91eb619 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -415,6 +415,7 @@ class Exporter:
         self.kifu = open(path, 'w', encoding=enc)
         self.prev_move = None
         self.move_number = 1
+        self.turn = cshogi.BLACK
 
     def close(self):
         """Close the file."""
@@ -438,8 +439,11 @@ class Exporter:
             else:
                 board = Board(sfen=handicap[5:])
             self.kifu.write(board_to_bod(board) + '\n')
+            self.turn = board.turn
         else:
             self.kifu.write('手合割：' + handicap + '\n')
+            if Parser.HANDYCAP_SFENS.get(handicap):
+                self.turn = Board(sfen=Parser.HANDYCAP_SFENS[handicap]).turn
         self.kifu.write('先手：' + names[0] + '\n')
         self.kifu.write('後手：' + names[1] + '\n')
         self.kifu.write('手数----指手---------消費時間--\n')
@@ -470,6 +474,7 @@ class Exporter:
 
         self.move_number += 1
         self.prev_move = move
+        self.turn = cshogi.opponent(self.turn)
 
     def end(self, reason: str, sec: int = 0, sec_sum: int = 0):
         """Record the end of the game.
@@ -502,7 +507,7 @@ class Exporter:
 
         # 結果出力
         if reason == 'resign':
-            self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の勝ち\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.WHITE else '後手'))
         elif reason == 'draw':
             self.kifu.write('まで{}手で持将棋\n'.format(self.move_number - 1))
         elif reason == 'win':
@@ -510,16 +515,16 @@ class Exporter:
         elif reason == 'sennichite':
             self.kifu.write('まで{}手で千日手\n'.format(self.move_number - 1))
         elif reason == 'illegal_win':
-            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.WHITE else '後手'))
         elif reason == 'illegal_lose':
-            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.move_number % 2 == 0 else '後手'))
+            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.WHITE else '後手'))
 
     def info(self, info):
         """Record additional information related to the game.
 
         :param info: A string containing additional information.
         """
-        turn = self.move_number % 2
+        turn = cshogi.opponent(self.turn)
         items = info.split(' ')
         comment = '**対局'
         i = 1
-- 
2.43.0


From 11e302860f5392a4ac1add699a1fcf960c7373b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:01 +0000
Subject: [PATCH 25/56] fix: KIF entering-king wins can be parsed back

---
 cshogi/KIF.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 91eb619..82823b8 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -62,7 +62,7 @@ class ParserException(Exception):
 class Parser:
     """A class for parsing Japanese Shogi notation in KIF format."""
 
-    MOVE_RE = re.compile(r'\A *[0-9]+\s+(中断|投了|持将棋|千日手|詰み|切れ負け|反則勝ち|反則負け|(([１２３４５６７８９])([零一二三四五六七八九])|同　)([歩香桂銀金角飛玉と杏圭全馬龍])(打|(成?)\(([0-9])([0-9])\)))\s*(\( *([:0-9]+)/([:0-9]+)\))?.*\Z')
+    MOVE_RE = re.compile(r'\A *[0-9]+\s+(中断|投了|持将棋|千日手|入玉宣言|入玉勝ち|詰み|切れ負け|反則勝ち|反則負け|(([１２３４５６７８９])([零一二三四五六七八九])|同　)([歩香桂銀金角飛玉と杏圭全馬龍])(打|(成?)\(([0-9])([0-9])\)))\s*(\( *([:0-9]+)/([:0-9]+)\))?.*\Z')
 
     HANDYCAP_SFENS = {
         '平手': cshogi.STARTING_SFEN,
@@ -145,6 +145,7 @@ class Parser:
             else:
                 time = None
             if m.group(1) not in [
+                    '入玉宣言',
                     '入玉勝ち',
                     '中断',
                     '投了',
@@ -511,7 +512,7 @@ class Exporter:
         elif reason == 'draw':
             self.kifu.write('まで{}手で持将棋\n'.format(self.move_number - 1))
         elif reason == 'win':
-            self.kifu.write('まで{}手で入玉宣言\n'.format(self.move_number - 1))
+            self.kifu.write('まで{}手で{}の入玉勝ち\n'.format(self.move_number - 1, '先手' if self.turn == cshogi.BLACK else '後手'))
         elif reason == 'sennichite':
             self.kifu.write('まで{}手で千日手\n'.format(self.move_number - 1))
         elif reason == 'illegal_win':
-- 
2.43.0


From 7d735311a0764d8eca1322123a2ea384f5df6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:01 +0000
Subject: [PATCH 26/56] fix: KIF.Exporter.info keeps the sign and length of an
 unsigned mate score

---
 cshogi/KIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 82823b8..8b66a32 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -550,11 +550,11 @@ class Exporter:
                     comment += ' 評価値 {}'.format(items[i] if turn == cshogi.BLACK else -int(items[i]))
                 elif items[i] == 'mate':
                     i += 1
-                    if items[i][0:1] == '+':
+                    if items[i][0:1] != '-':
                         comment += ' +詰' if turn == cshogi.BLACK else ' -詰'
                     else:
                         comment += ' -詰' if turn == cshogi.BLACK else ' +詰'
-                    comment += str(items[i][1:])
+                    comment += items[i].lstrip('+-')
             else:
                 i += 1
         self.kifu.write(comment + '\n')
-- 
2.43.0


From 4d8365858e854ec8ac2aa1f632867e1d2ce49281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:01 +0000
Subject: [PATCH 27/56] fix: KIF/KI2 fouls use the CSA meaning of
 %+ILLEGAL_ACTION, %-ILLEGAL_ACTION and %ILLEGAL_MOVE

---
 cshogi/KI2.py | 8 ++++----
 cshogi/KIF.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 47f55a5..f6e6691 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -225,14 +225,14 @@ class Parser:
                             endgame = '%ILLEGAL_MOVE'
                         else:
                             win = BLACK_WIN
-                            endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                            endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                     elif win_side_str == '後' or win_side_str == '上':
                         if m.group(4) == '反則負け':
                             win = BLACK_WIN
                             endgame = '%ILLEGAL_MOVE'
                         else:
                             win = WHITE_WIN
-                            endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                            endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                     elif m.group(2) == '持将棋':
                         win = DRAW
                         endgame = '%JISHOGI'
@@ -597,6 +597,6 @@ class Exporter:
         elif reason == '%SENNICHITE':
             self.kifu.write('まで{}手で千日手\n'.format(self.board.move_number - 1))
         elif reason == '%+ILLEGAL_ACTION' or reason == '%-ILLEGAL_ACTION':
-            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
+            self.kifu.write('まで{}手で{}の反則勝ち\n'.format(self.board.move_number - 1, '先手' if reason == '%-ILLEGAL_ACTION' else '後手'))
         elif reason == '%ILLEGAL_MOVE':
-            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
+            self.kifu.write('まで{}手で{}の反則負け\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.BLACK else '後手'))
diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 8b66a32..bac4793 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -271,14 +271,14 @@ class Parser:
                                 endgame = '%ILLEGAL_MOVE'
                             else:
                                 win = BLACK_WIN
-                                endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                                endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                         elif win_side_str == '後' or win_side_str == '上':
                             if m.group(4) == '反則負け':
                                 win = BLACK_WIN
                                 endgame = '%ILLEGAL_MOVE'
                             else:
                                 win = WHITE_WIN
-                                endgame = '%-ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
+                                endgame = '%+ILLEGAL_ACTION' if m.group(4) == '反則勝ち' else ('%KACHI' if m.group(4) == '入玉勝ち' else '%TORYO')
                         elif m.group(2) == '持将棋':
                             win = DRAW
                             endgame = '%JISHOGI'
-- 
2.43.0


From 87a7a044eff16bc6e461d9b3c12d91743e06265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:25 +0000
Subject: [PATCH 28/56] fix: KI2.Parser reads more than two moves on a line

---
 cshogi/KI2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index f6e6691..4d6c7d6 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -151,7 +151,7 @@ class Parser:
                 moves.append(move)
                 if board.is_legal(move):
                     board.push(move)
-                pos = m.end()
+                pos += m.end()
             else:
                 break
         return moves
-- 
2.43.0


From 9d912f919699950920b6bc3036324b5a661c3c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:25 +0000
Subject: [PATCH 29/56] fix: KI2 impasse records count the moves played

---
 cshogi/KI2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 4d6c7d6..68f0370 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -591,7 +591,7 @@ class Exporter:
         if reason == '%TORYO':
             self.kifu.write('まで{}手で{}の勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.WHITE else '後手'))
         elif reason == '%JISHOGI':
-            self.kifu.write('まで{}手で持将棋\n'.format(self.board.move_number + 1))
+            self.kifu.write('まで{}手で持将棋\n'.format(self.board.move_number - 1))
         elif reason == '%KACHI':
             self.kifu.write('まで{}手で{}の入玉勝ち\n'.format(self.board.move_number - 1, '先手' if self.board.turn == cshogi.BLACK else '後手'))
         elif reason == '%SENNICHITE':
-- 
2.43.0


From e7d7846e85ad8f743788e7a9996ce0b71a014078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:25 +0000
Subject: [PATCH 30/56] fix: KI2.Parser keeps consecutive comment lines with
 their move

---
 cshogi/KI2.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 68f0370..5133913 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -185,9 +185,13 @@ class Parser:
                     if len(moves) - len(comments) > 1:
                         comments.extend([None]*(len(moves) - len(comments) - 1))
                     if line[:2] == "**":
-                        comments.append(line[2:])
+                        comment = line[2:]
                     else:
-                        comments.append(line[1:])
+                        comment = line[1:]
+                    if len(comments) == len(moves):
+                        comments[-1] += "\n" + comment
+                    else:
+                        comments.append(comment)
                 else:
                     header_comments.append(line[1:])
             elif '：' in line:
-- 
2.43.0


From a3d9df4ee34e9ea1662199b0cdac9fa8d6bc2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:57 +0000
Subject: [PATCH 31/56] fix: KI2.Parser does not take a drop for a move of a
 piece on the board

---
 cshogi/KI2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index 5133913..af294ac 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -98,6 +98,8 @@ class Parser:
                 candidates = [move for move in board.legal_moves if move_to(move) == to_square and (not move_is_drop(move) and move_from_piece_type(move) == piece_type or move_is_drop(move) and hand_piece_to_piece_type(move_drop_hand_piece(move)) == piece_type)]
 
                 if m.group(6) or m.group(7):
+                    # 相対位置、動作は盤上の駒にのみ付く
+                    candidates = [move for move in candidates if not move_is_drop(move)]
                     from_file_min = from_rank_min = 9
                     from_file_max = from_rank_max = 0
                     for move in candidates:
-- 
2.43.0


From 0222ba3b1e8bdf051419fdbf2588257d45ebcf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:29 +0000
Subject: [PATCH 32/56] fix: KI2.Parser resolves moves whose motion the
 notation leaves out

---
 cshogi/KI2.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cshogi/KI2.py b/cshogi/KI2.py
index af294ac..e5912eb 100644
--- a/cshogi/KI2.py
+++ b/cshogi/KI2.py
@@ -65,6 +65,16 @@ class Parser:
                 raise KIF.ParserException('Invalid pieces in hand')
         return result
 
+    @staticmethod
+    def _normalize(line: str) -> str:
+        # Normalize king/promoted kanji
+        line = line.replace('王', '玉')
+        line = line.replace('竜', '龍')
+        line = line.replace('成銀', '全')
+        line = line.replace('成桂', '圭')
+        line = line.replace('成香', '杏')
+        return line
+
     @staticmethod
     def parse_move_str(line: str, board: Board):
         """Parses a string of moves and applies them to a given board.
@@ -73,12 +83,7 @@ class Parser:
         :param board: Board object to apply the moves to.
         :return: A list of moves parsed from the line.
         """
-        # Normalize king/promoted kanji
-        line = line.replace('王', '玉')
-        line = line.replace('竜', '龍')
-        line = line.replace('成銀', '全')
-        line = line.replace('成桂', '圭')
-        line = line.replace('成香', '杏')
+        line = Parser._normalize(line)
 
         moves = []
         pos = 0
@@ -148,6 +153,9 @@ class Parser:
 
                 if len(candidates) > 1:
                     candidates = [move for move in candidates if not move_is_drop(move)]
+                if len(candidates) > 1:
+                    # 動作で区別できる候補手は除かれているため、表記が一致する手を選ぶ
+                    candidates = [move for move in candidates if Parser.MOVE_RE.match(Parser._normalize(move_to_ki2(move, board))).group(6, 7, 8) == m.group(6, 7, 8)]
                     assert len(candidates) == 1
                 move = candidates[0]
                 moves.append(move)
-- 
2.43.0


From 3d578528322f09e7412bed1ead0e6cae4a7872d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:15 +0000
Subject: [PATCH 33/56] fix: taking back passes restores the continuous check
 counts

---
 src/position.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 01b17ca..683b97e 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -702,6 +702,8 @@ template <bool DO> void Position::doNullMove(StateInfo& backUpSt) {
     dst->boardKey = src->boardKey;
     dst->handKey = src->handKey;
     dst->pliesFromNull = src->pliesFromNull;
+    dst->continuousCheck[Black] = src->continuousCheck[Black];
+    dst->continuousCheck[White] = src->continuousCheck[White];
     dst->hand = hand(turn());
     turn_ = oppositeColor(turn());
 
-- 
2.43.0


From 59ee217d3dfcf1be65b8b4e713cf6ce8c123a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:11 +0000
Subject: [PATCH 34/56] fix: move_is_draw agrees with is_draw after the move

---
 src/position.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 683b97e..7ee1fca 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3323,19 +3323,28 @@ RepetitionType Position::moveIsDraw(const Move move, const int checkMaxPly) cons
         // 現在の局面と、少なくとも 4 手戻らないと同じ局面にならない。
         // ここでまず 1 手戻る。
         StateInfo* stp = st_->previous;
-        Key key = getKeyAfter(move);
+        const Color us = turn();
+        const Color them = oppositeColor(us);
+        const Key key = getKeyAfter(move);
+        const Key boardKey = getBoardKeyAfter(move);
 
         do {
             // 更に 2 手戻る。
             stp = stp->previous->previous;
             if (stp->key() == key) {
-                if (i <= st_->continuousCheck[turn()])
-                    return RepetitionWin;
-                else if (i <= st_->continuousCheck[oppositeColor(turn())])
+                // 同一局面なので、指し手が王手かどうかは stp が王手かどうかと一致する。
+                if (i <= st_->continuousCheck[them])
                     return RepetitionLose;
+                else if (stp->checkersBB && i <= st_->continuousCheck[us] + 2)
+                    return RepetitionWin;
                 else
                     return RepetitionDraw;
             }
+            else if (stp->boardKey == boardKey) {
+                // 相手の持ち駒はこちらの指し手では変わらない。
+                if (hand(them).isEqualOrSuperior(stp->hand)) return RepetitionSuperior;
+                if (stp->hand.isEqualOrSuperior(hand(them))) return RepetitionInferior;
+            }
             i += 2;
         } while (i <= e);
     }
-- 
2.43.0


From ef60289ec2646a272985cfd952ebc40496c2e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:30 +0000
Subject: [PATCH 35/56] fix: a move whose captured piece is not the one on the
 board is not legal

---
 src/position.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 7ee1fca..7484e95 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -424,6 +424,10 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
         if (piece(from) != colorAndPieceTypeToPiece(us, ptFrom) || bbOf(us).isSet(to))
             return false;
 
+        // 取る駒が現局面と異なる手を指すと局面が壊れる
+        if (move.cap() != pieceToPieceType(piece(to)))
+            return false;
+
         if (!attacksFrom(ptFrom, us, from).isSet(to))
             return false;
 
-- 
2.43.0


From 544b6679995c55259af9129328daeaf67539b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:52 +0000
Subject: [PATCH 36/56] fix: a move to a square off the board is not legal

---
 src/position.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 7484e95..14bdcf8 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -382,6 +382,10 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
     const Color them = oppositeColor(us);
     const Square to = move.to();
 
+    if (!isInSquare(to))
+        // 盤外
+        return false;
+
     if (move.isDrop()) {
         const PieceType ptFrom = move.pieceTypeDropped();
         if (ptFrom < Pawn || Gold < ptFrom)
-- 
2.43.0


From 2f0a0c4a7ccd3a69a3a02b1abc558e9bdd9e7ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:34 +0000
Subject: [PATCH 37/56] fix: reject SFENs whose board is not nine ranks of nine
 squares

A tenth rank wrapped around and put a second piece on an occupied square.
---
 src/position.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 14bdcf8..94c763d 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3394,6 +3394,8 @@ void Position::set(const std::string& sfen) {
     std::istringstream ss(sfen);
     char token;
     Square sq = SQ91;
+    int files = 0;
+    int ranks = 1;
 
     clear();
 
@@ -3401,10 +3403,17 @@ void Position::set(const std::string& sfen) {
     while (ss.get(token) && token != ' ') {
         if (promoteFlag == Promoted && !isPromotableChar(token))
             goto INCORRECT;
-        else if (isdigit(token))
+        else if (isdigit(token)) {
             sq += DeltaE * (token - '0');
-        else if (token == '/')
+            files += token - '0';
+        }
+        else if (token == '/') {
+            if (files != 9)
+                goto INCORRECT;
             sq += (DeltaW * 9) + DeltaS;
+            files = 0;
+            ++ranks;
+        }
         else if (token == '+')
             promoteFlag = Promoted;
         else if (g_charToPieceUSI.isLegalChar(token)) {
@@ -3412,6 +3421,7 @@ void Position::set(const std::string& sfen) {
                 setPiece(g_charToPieceUSI.value(token) + promoteFlag, sq);
                 promoteFlag = UnPromoted;
                 sq += DeltaE;
+                ++files;
             }
             else
                 goto INCORRECT;
@@ -3419,6 +3429,9 @@ void Position::set(const std::string& sfen) {
         else
             goto INCORRECT;
     }
+    // 9段全てが9マスであること
+    if (files != 9 || ranks != 9 || promoteFlag == Promoted)
+        goto INCORRECT;
     kingSquare_[Black] = king_square_or_square_num(bbOf(King, Black));
     kingSquare_[White] = king_square_or_square_num(bbOf(King, White));
     goldsBB_ = bbOf(Gold, ProPawn, ProLance, ProKnight, ProSilver);
-- 
2.43.0


From aaf08085a8a51e137630858b9d28b2a53237c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:04 +0000
Subject: [PATCH 38/56] fix: mate_move_in_1ply returns a legal mating move when
 in check

The one-ply search assumes the side to move is not in check; in check it returned moves that leave the king en prise.
---
 src/cshogi.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 0d686e3..81c5631 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -254,7 +254,21 @@ public:
     int piece(const int sq) const { return (int)pos.piece((Square)sq); }
     int kingSquare(const int c) { return (int)pos.kingSquare((Color)c); }
     bool inCheck() const { return pos.inCheck(); }
-    int mateMoveIn1Ply() { return pos.mateMoveIn1Ply().value(); }
+    int mateMoveIn1Ply() {
+        if (!pos.inCheck())
+            return pos.mateMoveIn1Ply().value();
+
+        // 王手されている場合は、合法手から詰ます手を探す
+        for (MoveList<LegalAll> ml(pos); !ml.end(); ++ml) {
+            StateInfo st;
+            pos.doMove(ml.move(), st);
+            const bool mate = pos.inCheck() && is_game_over();
+            pos.undoMove(ml.move());
+            if (mate)
+                return ml.move().value();
+        }
+        return Move::moveNone().value();
+    }
     int mateMove(int ply) {
         if (pos.inCheck())
             return mateMoveInOddPlyReturnMove<true>(pos, ply).value();
-- 
2.43.0


From 49c14ec4c79b67a0672986eb20da48d1ba98d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:20 +0000
Subject: [PATCH 39/56] fix: mate_move_in_1ply names the promoted piece it
 moves, not a gold

---
 src/position.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 94c763d..40c87e6 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -2557,7 +2557,7 @@ silver_drop_end:
                     if (!can_king_escape_cangoto(*this, Them, from, to, bb_attacks, slide)) {
                         if (promo && !(pt & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
-                        return makeCaptureMove(pt, from, to, *this);
+                        return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this);
                     }
 
                 DC_Silver_NO_PRO:
@@ -2806,7 +2806,7 @@ silver_drop_end:
                         if (canPromote(US, from, to) && !(piece(from) & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
                         else
-                            return makeCaptureMove(pt, from, to, *this);
+                            return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this);
                     }
 
                 DISCOVER_ATTACK_CONTINUE_Silver:
-- 
2.43.0


From 70e8586410adf53490f08cc7994ede3a49ed0841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:39 +0000
Subject: [PATCH 40/56] fix: the board picture after a pass marks no square

---
 cshogi/_cshogi.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 83f61ca..67a8db6 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -1094,7 +1094,7 @@ cdef class Board:
 
     def _repr_svg_(self):
         cdef int move = self.__board.peek()
-        if move == 0:
+        if move == 0 or move == MOVE_NULL:
             return self.to_svg()
         else:
             return self.to_svg(move)
-- 
2.43.0


From d491b485997f15b2a8cd686e44ecfcaebcfa9ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:06 +0000
Subject: [PATCH 41/56] =?UTF-8?q?fix:=20BOD=20keeps=20the=20piece=20name?=
 =?UTF-8?q?=20in=20captures=20on=20the=20previous=20square=20(=E5=90=8C)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cshogi/KIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index bac4793..2937759 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -390,7 +390,7 @@ def move_to_bod(move: int, board: Board) -> str:
     move_str = cshogi.KI2.move_to_ki2(move, board)
     if move_str[1] == '同':
         to_sq = cshogi.move_to(move)
-        return move_str[0] + KIFU_TO_SQUARE_NAMES[to_sq] + '同' + move_str[3:]
+        return move_str[0] + KIFU_TO_SQUARE_NAMES[to_sq] + '同' + move_str[2:].lstrip('　')
     else:
         return move_str
 
-- 
2.43.0


From 2af87121aff42cad7c575314b0be23566413ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:06 +0000
Subject: [PATCH 42/56] fix: is_legal refuses integers with bits that no move
 has

---
 src/position.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 40c87e6..d30994c 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -382,6 +382,10 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
     const Color them = oppositeColor(us);
     const Square to = move.to();
 
+    if (move.value() & 0xff008000)
+        // 指し手が使わないビットが立っている
+        return false;
+
     if (!isInSquare(to))
         // 盤外
         return false;
@@ -391,6 +395,9 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
         if (ptFrom < Pawn || Gold < ptFrom)
             // 持ち駒にならない駒
             return false;
+        if (move != makeDropMove(ptFrom, to))
+            // 駒打ちの指し手が使わないビットが立っている
+            return false;
         if (!hand(us).exists(pieceTypeToHandPiece(ptFrom)) || piece(to) != Empty)
             return false;
         if (isDeadEndPiece(us, ptFrom, makeRank(to)))
-- 
2.43.0


From 6a1e38136c45048e0c3a82f313f16631db8c8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:41 +0000
Subject: [PATCH 43/56] fix: in a match with pondering the score is read from
 the engine that moved

---
 cshogi/cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 1224dc5..f6b921c 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -159,7 +159,8 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             def __call__(self, line):
                 self.info = self.bestmove
                 self.bestmove = line
-        listener1 = listener2 = Listener()
+        listener1 = Listener()
+        listener2 = Listener()
 
     # CSA
     if csa and multi_csa:
@@ -338,12 +339,15 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                         is_game_over = True
                         break
 
+            # ponder開始後はlistenerに別の行が入るため、先に取得しておく
+            info = listener.info
+
             # ponder
             if ponder and pondermove:
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
                 feature = executor.submit(engine.go, ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
 
-            score = usi_info_to_score(listener.info)
+            score = usi_info_to_score(info)
             # 投了閾値
             if resign is not None:
                 if score is not None and score <= -resign:
@@ -357,7 +361,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                     move = board.move_from_usi(bestmove)
                     if board.is_legal(move):
                         if csa:
-                            csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
+                            csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, info))
                         board.push(move)
                         moves.append(move)
                         usi_moves.append(bestmove)
@@ -377,7 +381,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 move = board.move_from_usi(bestmove)
                 if board.is_legal(move):
                     if csa:
-                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, listener.info))
+                        csa_exporter.move(move, time=int(elapsed_time), comment=usi_info_to_csa_comment(board, info))
                     board.push(move)
                     moves.append(move)
                     usi_moves.append(bestmove)
-- 
2.43.0


From 678eb83f82bdce84d9d92a88e5ec6e23285a1968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:41 +0000
Subject: [PATCH 44/56] fix: engines still pondering at the end of a game are
 stopped first

---
 cshogi/cli.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index f6b921c..3e0af58 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -280,6 +280,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
         pre_pondermove = None
         feature = None
         pre_feature = None
+        pondering = {}
         while not is_game_over:
             engine_index = (board.move_number - 1) % 2
             engine = engines_order[engine_index]
@@ -303,12 +304,14 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
 
                         engine.ponderhit(listener=listener)
                         bestmove, pondermove = pre_feature.result()
+                        del pondering[engine]
     
                         elapsed_time = perf_counter() - start_time
                     else:
                         pre_pondermove = pondermove
                         engine.stop(listener=listener)
                         pre_feature.result()
+                        del pondering[engine]
                 else:
                     pre_pondermove = pondermove
                 pre_feature = feature
@@ -346,6 +349,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
             if ponder and pondermove:
                 engine.position(usi_moves + [bestmove, pondermove], listener=listener)
                 feature = executor.submit(engine.go, ponder=True, byoyomi=byoyomi, btime=remain_time[BLACK], wtime=remain_time[WHITE], binc=binc, winc=winc, listener=listener)
+                pondering[engine] = feature
 
             score = usi_info_to_score(info)
             # 投了閾値
@@ -420,6 +424,12 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 is_game_over = True
                 break
 
+        # ponder終了
+        for engine, listener in zip(engines_order, listeners_order):
+            if engine in pondering:
+                engine.stop(listener=listener)
+                pondering[engine].result()
+
         # ゲーム終了
         for engine, listener in zip(engines_order, listeners_order):
             engine.gameover(listener=listener)
-- 
2.43.0


From 33c49ab7dd16f64dc9158446e7f01a40b389d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:41 +0000
Subject: [PATCH 45/56] fix: a match with both main time and byoyomi lets the
 engines use the byoyomi

---
 cshogi/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index 3e0af58..fe3b5fa 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -333,8 +333,8 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 remain_time[board.turn] -= math.ceil(elapsed_time * 1000)
 
                 if remain_time[board.turn] < 0:
-                    # 1秒未満は切れ負けにしない
-                    if remain_time[board.turn] > -1000:
+                    # 秒読みの範囲内、および1秒未満は切れ負けにしない
+                    if remain_time[board.turn] > -1000 - (byoyomi or 0):
                         remain_time[board.turn] = 0
                     else:
                         # 時間切れ負け
-- 
2.43.0


From 4b1991115f604e334badd36f858048f51bc41b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:41 +0000
Subject: [PATCH 46/56] fix: the match summary shows the draw ratio in percent,
 as labelled

---
 cshogi/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/cli.py b/cshogi/cli.py
index fe3b5fa..0d81e23 100644
--- a/cshogi/cli.py
+++ b/cshogi/cli.py
@@ -529,7 +529,7 @@ def main(engine1: str, engine2: str, options1: Dict = {}, options2: Dict = {}, n
                 except ValueError:
                     error_margin = math.nan
                 print('Elo difference: {:.1f} +/- {:.1f}, LOS: {:.1f} %, DrawRatio: {:.1f} %'.format(
-                    elo.diff(), error_margin, elo.los(), elo.draw_ratio()))
+                    elo.diff(), error_margin, elo.los(), elo.draw_ratio() * 100))
 
         # CSA
         if csa:
-- 
2.43.0


From 9aac625128c7b44e5bb6691ab852826572f3367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 47/56] fix: a KIF move from file or rank 0 is an error, not a
 square off the board

---
 cshogi/KIF.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cshogi/KIF.py b/cshogi/KIF.py
index 2937759..0ec6fc0 100755
--- a/cshogi/KIF.py
+++ b/cshogi/KIF.py
@@ -171,6 +171,8 @@ class Parser:
                 else:
                     from_field = int(m.group(8)) - 1
                     from_rank = int(m.group(9)) - 1
+                    if from_field < 0 or from_rank < 0:
+                        raise ParserException('Invalid source square')
                     from_square = from_rank + from_field * 9
 
                     promotion = (m.group(7) == '成')
-- 
2.43.0


From c9791e9c25cb49d281926eae7edff1293175a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:41 +0000
Subject: [PATCH 48/56] fix: a 16-bit move to a square off the board is not
 looked up on the board

---
 src/move.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/move.hpp b/src/move.hpp
index fd81de5..67f4386 100644
--- a/src/move.hpp
+++ b/src/move.hpp
@@ -204,7 +204,7 @@ template <typename T, bool UseSentinel = false> inline void insertionSort(T firs
 inline Move move16toMove(const Move move, const Position& pos) {
     if (!move)
         return Move::moveNone();
-    if (move.isDrop())
+    if (move.isDrop() || move.to() >= SquareNum)
         return move;
     const Square from = move.from();
     const PieceType ptFrom = pieceToPieceType(pos.piece(from));
-- 
2.43.0


From 0d658b905c064a05f19d521896529ce7a92dc9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:41 +0000
Subject: [PATCH 49/56] fix: the answer to a web move tells a named human
 player that it is their turn

---
 cshogi/web/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index b3b8d1b..32419f8 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -340,7 +340,7 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
         human_input['number'] = int(request.args.get('number', default=0))
         time.sleep(0.2)
         human = ''
-        if names[len(moves) % 2] == 'Human':
+        if humans[len(moves) % 2]:
             human = 'black' if len(moves) % 2 == 0 else 'white'
         return { 'names': list(names), 'moves': list(moves), 'human':human }
 
-- 
2.43.0


From 8cd75b2d243afc6f2441fddb4ea3373a01672062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:41 +0000
Subject: [PATCH 50/56] fix: the web viewer opens CSA records whose move
 comments are not evaluations

---
 cshogi/web/app.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index 32419f8..ba28fb6 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -284,9 +284,13 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
             pv = []
             assert board.is_legal(move)
             board.push(move)
-            if len(comment_items) > 0 and comment_items[0] != '':
-                eval = int(comment_items[0])
-            if len(comment_items) > 1:
+            if comment_items[0] != '':
+                try:
+                    eval = int(comment_items[0])
+                except ValueError:
+                    # 評価値ではないコメント
+                    pv = comment_items
+            if eval != 'null' and len(comment_items) > 1:
                 board2 = board.copy()
                 for csa in comment_items[1:]:
                     move2 = board2.move_from_csa(csa[1:])
-- 
2.43.0


From 96f29feac0eb03ffcfa7a7c9800b2be9c2d164bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:41 +0000
Subject: [PATCH 51/56] fix: the web viewer opens CSA records without moves,
 without an end or ended by a foul

---
 cshogi/CSA.py     | 2 ++
 cshogi/web/app.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cshogi/CSA.py b/cshogi/CSA.py
index 2baafbd..7abd3ae 100644
--- a/cshogi/CSA.py
+++ b/cshogi/CSA.py
@@ -9,6 +9,8 @@ JAPANESE_END_GAMES = {
     '%SENNICHITE': '千日手',
     '%TIME_UP': '切れ負け',
     '%ILLEGAL_MOVE': '反則負け',
+    '%+ILLEGAL_ACTION': '反則勝ち',
+    '%-ILLEGAL_ACTION': '反則勝ち',
     '%JISHOGI': '持将棋',
     '%KACHI': '入玉宣言',
 }
diff --git a/cshogi/web/app.py b/cshogi/web/app.py
index ba28fb6..efb3f1b 100644
--- a/cshogi/web/app.py
+++ b/cshogi/web/app.py
@@ -309,8 +309,8 @@ def run(engine1: Optional[str] = None, engine2: Optional[str] = None, options1:
                 'pv': ' '.join(pv),
                 })
         moves.append({
-            'number': i + 2,
-            'kif_move': TURN_SYMBOLS[(i + 1) % 2] + CSA.JAPANESE_END_GAMES[kif.endgame],
+            'number': len(moves) + 1,
+            'kif_move': TURN_SYMBOLS[len(moves) % 2] + CSA.JAPANESE_END_GAMES.get(kif.endgame, ''),
             'time': 0,
             'move': 0,
             'eval': 'null',
-- 
2.43.0


From 97639b7976ed56561a8e5f5fe8640f1ef881521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:56 +0000
Subject: [PATCH 52/56] fix: OslDfPn.get_pv follows the line to the mate

The line was cut after max_depth moves, but a proof joined by transposition
can be longer, so get_pv could return a line that does not end in mate.
---
 src/osl_dfpn.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/osl_dfpn.cpp b/src/osl_dfpn.cpp
index 3e3640d..1fb649b 100644
--- a/src/osl_dfpn.cpp
+++ b/src/osl_dfpn.cpp
@@ -6868,6 +6868,9 @@ struct OslDfPn::Impl {
     bool stop = false;
     uint32_t max_search_node = std::numeric_limits<uint32_t>::max();
     int max_depth = 1600;
+    // A proof joined by transposition can be longer than max_depth, so the
+    // line is followed to the mate and only bounded against runaway.
+    int pv_length_limit() const { return std::max(max_depth, 1600); }
     int draw_ply = INT_MAX;
     uint64_t reserved_hash_mb = 64;
     Color root_attack_color = Black;
@@ -9904,7 +9907,7 @@ bool OslDfPn::Impl::linked_pv_defense_move(Position& pos, Move& best_move, const
 
 int OslDfPn::Impl::pv_attack(Position& pos, PvDepthTable& table, Move& best_move, const int height, const Move incoming_move,
     const Key board_index, const uint64_t board_secondary, OslPieceNumberState* piece_numbers) {
-    if (height >= max_depth) {
+    if (height >= pv_length_limit()) {
         best_move = Move::moveNone();
         return -1;
     }
@@ -9987,7 +9990,7 @@ int OslDfPn::Impl::pv_attack(Position& pos, PvDepthTable& table, Move& best_move
 
 int OslDfPn::Impl::pv_defense(Position& pos, PvDepthTable& table, Move& best_move, const int height, const Move incoming_move,
     const Key board_index, const uint64_t board_secondary, OslPieceNumberState* piece_numbers) {
-    if (height >= max_depth) {
+    if (height >= pv_length_limit()) {
         best_move = Move::moveNone();
         return -1;
     }
@@ -10051,7 +10054,8 @@ void OslDfPn::Impl::retrieve_pv(Position& pos, const bool attack_node, std::vect
     pv.clear();
     std::vector<Move> applied;
     std::vector<StateInfo> states;
-    states.reserve(static_cast<size_t>(max_depth));
+    const int pv_limit = pv_length_limit();
+    states.reserve(static_cast<size_t>(pv_limit));
 
     const auto undo_applied = [&]() {
         while (!applied.empty()) {
@@ -10063,7 +10067,7 @@ void OslDfPn::Impl::retrieve_pv(Position& pos, const bool attack_node, std::vect
     Key current_board_index = board_index_key(pos);
     uint64_t current_board_secondary = secondary_board_key(pos);
     Optional<OslPieceNumberState> piece_numbers = OslPieceNumberState::from_position(pos);
-    for (int i = 0; i < max_depth; ++i) {
+    for (int i = 0; i < pv_limit; ++i) {
         Move next = Move::moveNone();
         const bool attack_turn = attack_node ^ ((i % 2) != 0);
         if (attack_turn) {
-- 
2.43.0


From 5d66aaeedec0d36b41f9eeeb70ff7a74b0bfd98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:21 +0000
Subject: [PATCH 53/56] fix: DfPn.get_pv gives the line when it meets positions
 of the game, or again with more pieces in hand

---
 src/dfpn.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dfpn.cpp b/src/dfpn.cpp
index c9fce7f..49a257d 100644
--- a/src/dfpn.cpp
+++ b/src/dfpn.cpp
@@ -797,7 +797,9 @@ int DfPn::get_pv_inner(Position& pos, std::vector<u32>& pv) {
                 pos.doMove(move, state_info);
                 switch (pos.isDraw(256)) {
                 case NotRepetition:
+                case RepetitionDraw: // 読み筋の手は全て王手なので、探索開始より前の局面との千日手
                 case RepetitionSuperior:
+                case RepetitionInferior:
                 {
                     pv.emplace_back(move.move.value());
                     const auto depth = get_pv_inner<false>(pos, pv);
-- 
2.43.0


From 2b981faeb15c35ca9466acc4b8360b44a2333905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:53 +0000
Subject: [PATCH 54/56] fix: CSA records with CR-LF line ends are read

---
 cshogi/_cshogi.pyx | 2 +-
 src/parser.h       | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 67a8db6..caf4e1e 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -1480,7 +1480,7 @@ cdef class Parser:
         """
         parsers = []
         # split multiple matches
-        matches = csa_str.split('\n/\n')
+        matches = csa_str.replace('\r\n', '\n').split('\n/\n')
         for one_csa_str in matches:
             parser = Parser()
             parser.parse_csa_str(one_csa_str)
diff --git a/src/parser.h b/src/parser.h
index 00d8d0f..db93c63 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -145,6 +145,8 @@ namespace parser {
             std::string line;
             while (!is.bad() && !is.eof()) {
                 std::getline(is, line);
+                if (!line.empty() && line.back() == '\r')
+                    line.pop_back();
                 if (line[0] == '\0') {
                 }
                 else if (line[0] == '\'') {
-- 
2.43.0


From a5f13b66e14f614988d879a18e4911e00435bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:53 +0000
Subject: [PATCH 55/56] fix: CSA statements after a comma in the line of a move
 are read

---
 src/parser.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index db93c63..79e0f1f 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -143,10 +143,26 @@ namespace parser {
             std::string current_turn_str;
             Color lose_color = ColorNum;
             std::string line;
-            while (!is.bad() && !is.eof()) {
-                std::getline(is, line);
-                if (!line.empty() && line.back() == '\r')
-                    line.pop_back();
+            std::string rest;
+            while (!is.bad() && (!is.eof() || !rest.empty())) {
+                if (rest.empty()) {
+                    std::getline(is, line);
+                    if (!line.empty() && line.back() == '\r')
+                        line.pop_back();
+                }
+                else {
+                    line.swap(rest);
+                    rest.clear();
+                }
+                // 1行に書かれた複数のステートメント
+                if (line[0] == 'T' || line[0] == COLOR_SYMBOLS[0] || line[0] == COLOR_SYMBOLS[1]) {
+                    const auto comma_pos = line.find(',');
+                    if (comma_pos != std::string::npos && !(line[0] != 'T' && line[comma_pos + 1] == '\'')) {
+                        rest = line.substr(comma_pos + 1);
+                        line.resize(comma_pos);
+                    }
+                }
+
                 if (line[0] == '\0') {
                 }
                 else if (line[0] == '\'') {
-- 
2.43.0


From a5d9b8e9bcdf963748306f4dd6347bf2cc779f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:33 +0000
Subject: [PATCH 56/56] fix: quote names and lines in the web page's script and
 markup

Player names and comments went into JavaScript strings with HTML escapes only, so that a
backslash changed or broke the page, and names and lines that came later were used as markup.
---
 cshogi/web/templates/board.html | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cshogi/web/templates/board.html b/cshogi/web/templates/board.html
index 28f1739..862a287 100644
--- a/cshogi/web/templates/board.html
+++ b/cshogi/web/templates/board.html
@@ -9,13 +9,17 @@
     <script src="https://cdnjs.cloudflare.com/ajax/libs/jquery-confirm/3.3.2/jquery-confirm.min.js"></script>
     <script src="{{url_for('static', filename='board.js')}}"></script>
     <script>
-        let names = ["{{names[0]}}", "{{names[1]}}"];
-        let moves = [{% for move in moves %}{number:{{move['number']}},kif_move:"{{move['kif_move']}}",time:{{move['time']}},move:{{move['move']}},eval:{{move['eval']}},pv:"{{move['pv']}}"},{% endfor %}];
+        let names = [{{names[0]|tojson}}, {{names[1]|tojson}}];
+        let moves = [{% for move in moves %}{number:{{move['number']}},kif_move:{{move['kif_move']|tojson}},time:{{move['time']}},move:{{move['move']}},eval:{{move['eval']}},pv:{{move['pv']|tojson}}},{% endfor %}];
         let isMatch = {{is_match}};
         let autoupdate = {{autoupdate}};
         let human = "{{human}}";
         let board = new Board();
 
+        function escapeHtml(text) {
+            return text.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
+        }
+
         let current = 0;
         function selectMoveNumber(number) {
             rows = $("#table-moves tr");
@@ -55,7 +59,7 @@
             }
             comments[0].removeClass('text-black-50')
             comments[0].addClass('text-body')
-            comments[0].html("<td>" + eval + "</td><td>" + pv + "</td>");
+            comments[0].html("<td>" + eval + "</td><td>" + escapeHtml(pv) + "</td>");
 
             eval = '';
             pv = '';
@@ -66,7 +70,7 @@
             }
             comments[1].removeClass('text-body')
             comments[1].addClass('text-black-50')
-            comments[1].html("<td>" + eval + "</td><td>" + pv + "</td>");
+            comments[1].html("<td>" + eval + "</td><td>" + escapeHtml(pv) + "</td>");
         }
 
         function drawEvalGraph() {
@@ -155,7 +159,7 @@
 
         function updateNames() {
             if (names[0] != null && names[0] != "None")
-                $("#names").html("▲" + names[0] + " △" + names[1]);
+                $("#names").text("▲" + names[0] + " △" + names[1]);
         }
 
         function updateTableMoves() {
-- 
2.43.0

