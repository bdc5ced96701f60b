From d314e8cb2552da92c8f64d2c17d8db0a66453e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 01/37] fix: give every chi with a red five from hand its own
 post-turn slot

The slots of red chi collided with each other and with pon slots.
---
 MahjongAI/draw.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index f90474f..8af3419 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -244,8 +244,13 @@ class Naki(Draw):
         if self.is_chi():
             color, number, which, has_red, _, _ = self.pattern_chi()
             if has_red and number + which != 4:
+                # red is laid from hand: number is 2, 3 or 4, which is one of the other two
                 return (
-                    CHI_START + 63 + 6 * color + number * 2 + (number + which - 3) // 2
+                    CHI_START
+                    + 63
+                    + 6 * color
+                    + (number - 2) * 2
+                    + (which - (which > 4 - number))
                 )
             else:
                 return CHI_START + color * 21 + number * 3 + which
-- 
2.43.0


From 94661309e2b5fd25d0bac867940732ed9578682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 02/37] fix: use the red-pon slot whenever the red five comes
 from the caller's hand

Only logs in which copy 3 was called were given the red slot.
---
 MahjongAI/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index 8af3419..039b758 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -259,7 +259,7 @@ class Naki(Draw):
             color, number, which, has_red, _, acquired = self.pattern_pon()
             if color == 3:
                 return PON_START + 30 + number
-            elif has_red and acquired % 4 == 3:
+            elif has_red and acquired % 4 != 0:
                 return PON_START + 27 + color
             else:
                 return PON_START + 9 * color + number
-- 
2.43.0


From e5e4a98afdd51b675ff39b2076014591ccb5705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 03/37] fix: canonical code of a pon without red five does not
 keep the called index

---
 MahjongAI/draw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index 039b758..07bd888 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -91,6 +91,8 @@ class Naki(Draw):
             code += 0x60
             if which:
                 code -= (which - 1) << 9
+        else:
+            code -= which << 9
         return code
 
     def _clean_kakan(self):
-- 
2.43.0


From d3340c67805c62073e2398e23f85b3bff179fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 04/37] fix: canonical code of a kakan depends only on the tile
 and on where the red five is

The seat bits and the called index of the earlier pon leaked into it, and the
index was taken for the place of the red five.
---
 MahjongAI/draw.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index 07bd888..b80d9ee 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -96,9 +96,11 @@ class Naki(Draw):
         return code
 
     def _clean_kakan(self):
-        _, _, which, red, *_ = self.pattern_kakan()
-        code = self.naki_code & ~(0x60)
-        if not red or which:
+        _, _, which, red, exposed, _ = self.pattern_kakan()
+        red_in_pon = red and exposed[0] % 4 != 0
+        code = self.naki_code & ~(0x60 | 0x3)
+        code += (int(red_in_pon) - which) << 9
+        if not red or red_in_pon:
             code |= 0x20
         return code
 
-- 
2.43.0


From e23335d71f1f6c55da01e84fe81281ac6b0552a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 05/37] fix: mark discard tokens with the discard event type

They carried the call event type.
---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5df14da..e0a6ccf 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -595,7 +595,7 @@ def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
         EventStateTypes.DISCARD << 13
-        | EventTypes.NAKI << 10
+        | EventTypes.DISCARD << 10
         | who << 8
         | int(is_tsumogiri) << 7
         | tile_idx
-- 
2.43.0


From 2f0f31a47f0e5fe7282393cd0197d83bbb7754ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 06/37] fix: offer open kans under the code of the logged call

The code says 0 when the red five was called and 1 otherwise; the options were
built the other way round and never matched a logged open kan.
---
 MahjongAI/decision.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 4dd7032..f00757a 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -88,7 +88,7 @@ def _one_and_nine_mask(
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -123,7 +123,7 @@ def _two_and_eight_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -185,7 +185,7 @@ def _three_and_seven_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -263,7 +263,7 @@ def _four_and_six_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -317,7 +317,7 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1 if is_red else 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0 if is_red else 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -336,7 +336,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
-- 
2.43.0


From dd55f6256cdbc0476dc44abe7940ba46869755fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 07/37] fix: offer pon to a player who holds three of the
 discarded tile

With three in hand both pon and open kan are possible.
---
 MahjongAI/decision.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index f00757a..afa6c39 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -83,7 +83,7 @@ def _one_and_nine_mask(
             )
             assert naki.is_chi()
             decisions[p].append(NakiDecision(p, naki, False))
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -117,7 +117,7 @@ def _two_and_eight_mask(
                 assert naki.is_chi()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -179,7 +179,7 @@ def _three_and_seven_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -257,7 +257,7 @@ def _four_and_six_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -300,16 +300,16 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if player_has_red:
-            if hand_tensor[tile_idx] == 2.0:
+            if hand_tensor[tile_idx] >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 1, True, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
-            if black_fives == 2.0:
+            if black_fives >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
         else:
-            if hand_tensor[tile_idx] == 2.0:
+            if hand_tensor[tile_idx] >= 2.0:
                 naki = Naki.from_pon_info(
                     tile_idx, 1 if is_red else 0, is_red, (player - p) % 4
                 )
@@ -331,7 +331,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
         if p == player:
             continue
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
-- 
2.43.0


From a8cf5348cd344f60ae98ad271d92fefe0263e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 08/37] fix: a pon on a discarded red five does not use a red
 five from hand

---
 MahjongAI/decision.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index afa6c39..8b4b826 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -310,9 +310,7 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
         else:
             if hand_tensor[tile_idx] >= 2.0:
-                naki = Naki.from_pon_info(
-                    tile_idx, 1 if is_red else 0, is_red, (player - p) % 4
-                )
+                naki = Naki.from_pon_info(tile_idx, 0, is_red, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-- 
2.43.0


From 008707761892aec134c06019b4d68d42e2dc0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 09/37] fix: count the fives, not the discarded tile, when
 offering chi without the red five

---
 MahjongAI/decision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 8b4b826..c50647e 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -144,7 +144,7 @@ def _three_and_seven_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx + 2 * coef] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -206,7 +206,7 @@ def _four_and_six_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx + coef] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
-- 
2.43.0


From cdf764a214dcda33260495729b49efb8864a1061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 10/37] fix: a four or six called into the middle of a run with
 a red five is the middle tile

---
 MahjongAI/decision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index c50647e..221e9d2 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -218,7 +218,7 @@ def _four_and_six_mask(
             if hand_tensor[tile_idx - 1] * hand_tensor[tile_idx + 1]:
                 if player_has_red:
                     naki = Naki.from_chi_info(
-                        tile_idx // 9, 2 if is_four else 4, 0 if is_four else 2, True
+                        tile_idx // 9, 2 if is_four else 4, 1, True
                     )
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
@@ -226,7 +226,7 @@ def _four_and_six_mask(
                         naki = Naki.from_chi_info(
                             tile_idx // 9,
                             2 if is_four else 4,
-                            0 if is_four else 2,
+                            1,
                             False,
                         )
                         assert naki.is_chi()
-- 
2.43.0


From 5af2b2ac994f326826b1cf1bf5dca7901c657bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 11/37] fix: a recorded state is not changed by later events of
 the round

---
 MahjongAI/process_xml.py | 27 ++++++++++++++-------------
 MahjongAI/state.py       | 11 ++++++-----
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e0a6ccf..877bc90 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -220,6 +220,20 @@ def process(file_path: str, verbose: bool = False):
                 if acquired is not None:
                     hand_tensors_full[player][TILE2IDX[acquired]] += 1.0
 
+                if naki.from_who() != 0:
+                    is_menzen[player] = 0
+                if sum(ippatsu):
+                    ippatsu = [0] * 4
+
+                if naki.is_kakan():
+                    # remove corresponding pon from melds
+                    for i, meld in enumerate(melds[player]):
+                        if meld.is_pon():
+                            color, number, *_ = meld.pattern_pon()
+                            if color * 9 + number == exposed[0] // 4:
+                                melds[player].pop(i)
+                                break
+
                 stateObj = StateObject(
                     remaining_turns=remaining_tsumo,
                     hand_tensor=hand_tensors[player],
@@ -242,21 +256,8 @@ def process(file_path: str, verbose: bool = False):
                     player=player,
                 )
 
-                if naki.from_who() != 0:
-                    is_menzen[player] = 0
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
-
                 # in case of Kakan, create new post turn to train on chankan ron decision
                 if naki.is_kakan():
-                    # remove corresponding pon from melds
-                    for i, meld in enumerate(melds[player]):
-                        if meld.is_pon():
-                            color, number, *_ = meld.pattern_pon()
-                            if color * 9 + number == exposed[0] // 4:
-                                melds[player].pop(i)
-                                break
-
                     new_post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
                     # evaluate chankan ron
diff --git a/MahjongAI/state.py b/MahjongAI/state.py
index bd095df..0bed7d4 100644
--- a/MahjongAI/state.py
+++ b/MahjongAI/state.py
@@ -28,15 +28,16 @@ class StateObject:
         player: int
     ):
         self.remaining_turns = remaining_turns
-        self.hand_tensor = hand_tensor
-        self.remaining_tiles = remaining_tiles
-        self.remaining_tiles_pov = remaining_tiles_pov
+        # the round goes on changing these, so the state keeps its own copies
+        self.hand_tensor = hand_tensor.copy()
+        self.remaining_tiles = remaining_tiles.copy()
+        self.remaining_tiles_pov = remaining_tiles_pov.copy()
         self.sutehai_tensors = sutehai_tensors
-        self.is_menzen = is_menzen
+        self.is_menzen = is_menzen[:]
         self.double_reaches = double_reaches
         self.reaches = reaches
         self.ippatsu = ippatsu
-        self.melds = melds
+        self.melds = [player_melds[:] for player_melds in melds]
         self.scores = scores
         self.kyotaku = kyotaku
         self.honba = honba
-- 
2.43.0


From 51f2ba7e35678261b34688d3089e083dbc7dc6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 12/37] fix: only drawing a tile lowers the number of remaining
 draws

---
 MahjongAI/process_xml.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 877bc90..d8d49cc 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -129,7 +129,6 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                remaining_tsumo -= 1
                 encoding_tokens.append(new_dora2idx(tile_idx))
 
             elif eventtype == "REACH":
@@ -199,9 +198,6 @@ def process(file_path: str, verbose: bool = False):
                                 decision.executed = True
                                 break
 
-                if not naki.is_chi() and not naki.is_pon():
-                    remaining_tsumo -= 1
-
                 exposed, acquired = naki.get_exposed()
                 exposed_idx = TILE2IDX[exposed]
 
-- 
2.43.0


From cc4682b63766d14b82c68479acddabe278acbacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 13/37] fix: a red five shown as new dora indicator is no
 longer unseen

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index d8d49cc..e2845fa 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -124,12 +124,12 @@ def process(file_path: str, verbose: bool = False):
 
             if eventtype == "DORA":
                 tile = int(event["attr"]["hai"])
-                tile_idx = TILE2IDX[tile][0]
+                tile_idx = TILE2IDX[tile]
                 doras = doras[:] + [tile]
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                encoding_tokens.append(new_dora2idx(tile_idx))
+                encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
                 assert curr_halfturn is not None
-- 
2.43.0


From b33f965a8978aee04b654f607703e043bfc9fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 14/37] fix: the one-shot chance lasts until the next own
 discard or a call

---
 MahjongAI/process_xml.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e2845fa..c10309e 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -319,10 +319,6 @@ def process(file_path: str, verbose: bool = False):
                 hand_tensors_full[player][tile_idx] += 1.0
                 assert int(hand_tensors[player][:34].sum()) % 3 == 2
 
-                if ippatsu[player]:
-                    ippatsu = ippatsu[:]
-                    ippatsu[player] = 0
-
                 # check if tsumo is possible
                 agari_decisions = evaluate_tsumo(
                     player=player,
@@ -412,8 +408,6 @@ def process(file_path: str, verbose: bool = False):
 
                 halfturns.append(halfturn)
                 curr_halfturn = halfturn  # carry over
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
 
             elif eventtype[0] in ["D", "E", "F", "G"]:
                 assert acquired is not None
@@ -445,6 +439,11 @@ def process(file_path: str, verbose: bool = False):
                 ].sum()
                 sutehai_tensors[player, tile_idx] = 1.0
 
+                # the one-shot chance ends with the next discard after riichi
+                if reaches[player] and ippatsu[player]:
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 0
+
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1.0
                 remaining_tiles_pov[player][tile_idx] += 1.0
-- 
2.43.0


From 7c9df6ae6aec562c34c42f179912283f9c9aa434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 15/37] fix: responses to a discard see the discard

---
 MahjongAI/process_xml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index c10309e..915092f 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -431,6 +431,11 @@ def process(file_path: str, verbose: bool = False):
                 )
                 halfturns.append(half_turn)
 
+                # the discard is public when the others respond to it
+                encoding_tokens.append(
+                    discard2idx(player, tile_idx[0], tile == acquired)
+                )
+
                 hands[player, tile] = 0.0
                 hand_tensors[player][tile_idx] -= 1.0
                 hand_tensors_full[player][tile_idx] -= 1.0
@@ -496,9 +501,6 @@ def process(file_path: str, verbose: bool = False):
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
 
-                encoding_tokens.append(
-                    discard2idx(player, tile_idx[0], tile == acquired)
-                )
                 acquired = None
 
             elif eventtype == "AGARI" or eventtype == "RYUUKYOKU":
-- 
2.43.0


From efc1a6291a3b841705a6aba226642adebc8c6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 16/37] fix: offer an added kan when the fourth tile of a pon
 is in hand

---
 MahjongAI/process_xml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 915092f..d748752 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -359,14 +359,15 @@ def process(file_path: str, verbose: bool = False):
                 # check if kakan is possible
                 for meld in melds[player]:
                     if meld.is_pon():
-                        color, number, *_ = meld.pattern_pon()
-                        if hands[player, 9 * color + number] == 1.0:
+                        color, number, _, pon_has_red, *_ = meld.pattern_pon()
+                        if hand_tensors[player][9 * color + number] == 1.0:
+                            # which = 1 if the exposed pon holds the red five
                             naki_decisions.append(
                                 NakiDecision(
                                     player,
                                     Naki.from_kakan_info(
-                                        9 * color + number, 0
-                                    ),  # TODO get accurate "which" value
+                                        9 * color + number, int(pon_has_red)
+                                    ),
                                     executed=False,
                                 )
                             )
-- 
2.43.0


From 59becf61b4a245d8c035cdcf3eaa7ddf859c8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 17/37] fix: do not offer calls in riichi or on the last
 discard

---
 MahjongAI/process_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index d748752..e63022e 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -491,6 +491,9 @@ def process(file_path: str, verbose: bool = False):
                     if p == player:
                         assert len(decision_lst) == 0
                         continue
+                    # no calls in riichi, nor on the last discard
+                    if reaches[p] or remaining_tsumo == 0:
+                        continue
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
                 half_turn = PostTurn(
-- 
2.43.0


From 307339dfc66a5b475b4be213d3139833ceacd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 18/37] fix: a concealed kan ends the uninterrupted first turn

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e63022e..989a1c7 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -151,7 +151,7 @@ def process(file_path: str, verbose: bool = False):
                     kyotaku += 1
                     scores = scores.copy()
                     scores[player] -= 10
-                    if cycles <= 4 and min(is_menzen):
+                    if cycles <= 4 and not any(melds):
                         double_reaches = double_reaches[:]
                         double_reaches[player] = 1
                     encoding_tokens.append(reach2idx(player))
@@ -332,7 +332,7 @@ def process(file_path: str, verbose: bool = False):
                     is_rinshan=False,
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
-                    is_chiihou=(2 <= cycles <= 4 and min(is_menzen)),
+                    is_chiihou=(2 <= cycles <= 4 and not any(melds)),
                     player_wind=roundinfo.player_wind,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
-- 
2.43.0


From a6b861f4c70bb95e3f5fde2347d458366470e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 19/37] fix: a win before the first draw depends on the
 winner's seat

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 989a1c7..9392c65 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -470,8 +470,8 @@ def process(file_path: str, verbose: bool = False):
                     is_haitei=(remaining_tsumo == 0),
                     double_reaches=double_reaches,
                     is_renhou=[
-                        (cycles <= 3 and player >= cycles and min(is_menzen))
-                        for _ in range(4)
+                        (p - int(parent)) % 4 >= cycles and not any(melds)
+                        for p in range(4)
                     ],
                     player_wind=roundinfo.player_wind,
                     round_wind=roundinfo.round_wind,
-- 
2.43.0


From cea2b052828833aa9c83f9935fec2785e84626b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 20/37] fix: tell the scoring library about draws after a kan

---
 MahjongAI/process_xml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 9392c65..0583639 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -107,6 +107,7 @@ def process(file_path: str, verbose: bool = False):
         curr_halfturn = None
         cycles = 0
         acquired = None
+        is_rinshan = False  # the next draw replaces a tile used for a kan
         result_idx = None
 
         if verbose:
@@ -300,6 +301,7 @@ def process(file_path: str, verbose: bool = False):
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     cycles += 1
                     acquired = None
+                    is_rinshan = True
 
             elif eventtype[0] in ["T", "U", "V", "W"]:
                 assert acquired is None
@@ -328,8 +330,8 @@ def process(file_path: str, verbose: bool = False):
                     doras=doras,
                     reaches=reaches,
                     ippatsu=ippatsu,
-                    is_haitei=(remaining_tsumo == 0),
-                    is_rinshan=False,
+                    is_haitei=(remaining_tsumo == 0 and not is_rinshan),
+                    is_rinshan=is_rinshan,
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
                     is_chiihou=(2 <= cycles <= 4 and not any(melds)),
@@ -339,6 +341,8 @@ def process(file_path: str, verbose: bool = False):
                     honba=honba,
                 )
 
+                is_rinshan = False
+
                 # check if reach is possible
                 reach_decisions = []
                 if not reaches[player] and is_menzen[player]:
-- 
2.43.0


From cd582b2077671d36c8b74bfe15f7fe33e545ee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 21/37] fix: a win on the last discard is houtei, not haitei

---
 MahjongAI/utils/agari.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 7e2b2d7..085f6f5 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -124,8 +124,8 @@ def evaluate_ron(
             is_ippatsu=ippatsu[p],
             is_rinshan=False,
             is_chankan=is_chankan,
-            is_haitei=is_haitei,
-            is_houtei=False,
+            is_haitei=False,
+            is_houtei=is_haitei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
             player_wind=player_wind,
-- 
2.43.0


From 3d56668d098fe2cb92d13cfe39af4e96b22ea4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 22/37] fix: give the scoring library each player's own wind

---
 MahjongAI/utils/agari.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 085f6f5..8b93cb0 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -3,6 +3,7 @@ import sys
 
 sys.path.append("../../")
 
+from mahjong.constants import EAST
 from mahjong.tile import TilesConverter
 from mahjong.hand_calculating.hand import HandCalculator
 from mahjong.hand_calculating.hand_response import HandResponse
@@ -128,8 +129,8 @@ def evaluate_ron(
             is_houtei=is_haitei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
-            player_wind=player_wind,
-            round_wind=round_wind,
+            player_wind=EAST + (p - player_wind) % 4,
+            round_wind=EAST + round_wind,
             kyoutaku_number=kyotaku,
             tsumi_number=honba,
             options=OPTIONS,
@@ -235,8 +236,8 @@ def evaluate_tsumo(
         is_tenhou=is_tenhou,
         is_chiihou=is_chiihou,
         is_renhou=False,
-        player_wind=player_wind,
-        round_wind=round_wind,
+        player_wind=EAST + (player - player_wind) % 4,
+        round_wind=EAST + round_wind,
         kyoutaku_number=kyotaku,
         tsumi_number=honba,
         options=OPTIONS,
-- 
2.43.0


From 0916f3967058387f1e41edde221d5ba289c05475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 23/37] fix: evaluate wins with the tiles that are in the hand

---
 MahjongAI/utils/agari.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 8b93cb0..0e51bba 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -70,9 +70,9 @@ def evaluate_ron(
                 print(f"Player {p} is furiten")
             continue
 
-        hand_tensor[discarded_tile_idx] += 1
+        hand_tensor[TILE2IDX[discarded_tile]] += 1
         man, pin, sou, honors = hand_tensor2strs(hand_tensor)
-        hand_tensor[discarded_tile_idx] -= 1
+        hand_tensor[TILE2IDX[discarded_tile]] -= 1
 
         tiles = TilesConverter.string_to_136_array(
             man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
@@ -139,7 +139,7 @@ def evaluate_ron(
         # TODO: use Agari.is_agari instead for better performance
         result: HandResponse = hand_calculator.estimate_hand_value(
             tiles=tiles,
-            win_tile=discarded_tile,
+            win_tile=_same_kind_tile(tiles, discarded_tile),
             melds=melds,
             dora_indicators=doras,
             config=config,
@@ -245,7 +245,7 @@ def evaluate_tsumo(
 
     result: HandResponse = hand_calculator.estimate_hand_value(
         tiles=tiles,
-        win_tile=tsumo_tile,
+        win_tile=_same_kind_tile(tiles, tsumo_tile),
         melds=melds,
         dora_indicators=doras,
         config=config,
@@ -260,6 +260,13 @@ def evaluate_tsumo(
     return decisions
 
 
+def _same_kind_tile(tiles, tile):
+    # tiles is built from counts, so it may hold other copies than the one drawn
+    if tile in tiles:
+        return tile
+    return [t for t in tiles if t // 4 == tile // 4][-1]
+
+
 def hand_tensor2strs(hand_tensor):
     tile_strs = []
 
@@ -267,6 +274,8 @@ def hand_tensor2strs(hand_tensor):
         lst = []
         for j in range(9):
             lst += [j + 1] * int(hand_tensor[i + j])
+        if hand_tensor[34 + i // 9]:
+            lst[lst.index(5)] = 0  # red five
         tile_strs.append("".join(list(map(str, lst))))
 
     lst = []
-- 
2.43.0


From 2cc7071f6be4bd48d6cab65b58b80f0f7cb71464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 24/37] fix: mark the winner's decision as executed

---
 MahjongAI/process_xml.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 0583639..cbd287b 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -253,6 +253,8 @@ def process(file_path: str, verbose: bool = False):
                     player=player,
                 )
 
+                curr_halfturn = None
+
                 # in case of Kakan, create new post turn to train on chankan ron decision
                 if naki.is_kakan():
                     new_post_decisions = [[[] for _ in range(3)] for _ in range(4)]
@@ -296,8 +298,6 @@ def process(file_path: str, verbose: bool = False):
                 if naki.is_ankan():
                     pass
 
-                curr_halfturn = None
-
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     cycles += 1
                     acquired = None
@@ -528,7 +528,17 @@ def process(file_path: str, verbose: bool = False):
                 result.append(
                     AgariResult(list(map(int, event["attr"]["sc"].split(","))))
                 )
-                # TODO: make decision executed = True
+
+                # change executed to True
+                if curr_halfturn is not None:
+                    player = int(event["attr"]["who"])
+                    if isinstance(curr_halfturn, PostTurn):
+                        agari_decisions = curr_halfturn.decisions[player]
+                    else:
+                        agari_decisions = curr_halfturn.decisions
+                    for decision in agari_decisions[DECISION_AGARI_IDX]:
+                        if decision.player == player:
+                            decision.executed = True
 
             elif event["event"] == "RYUUKYOKU":
                 result.append(
-- 
2.43.0


From 2247840bdd55b34a6b3ef9e060fd7e7497a07d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 25/37] fix: own-turn samples are labelled with the action that
 was executed

---
 MahjongAI/agents/transformer.py              | 10 +++++-----
 MahjongAI/agents/transformer_conv.py         | 10 +++++-----
 MahjongAI/agents/transformer_conv_large.py   | 10 +++++-----
 MahjongAI/agents/transformer_conv_ordered.py | 10 +++++-----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index a677569..bd9171d 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -819,7 +819,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -830,12 +830,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -844,12 +844,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 04d844f..1711d14 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 75bbec1..d0df3bf 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 1c146c8..e4127b3 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -909,7 +909,7 @@ class TransformerTensorProcessor:
             )
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -920,12 +920,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -939,12 +939,12 @@ class TransformerTensorProcessor:
                         ), f"Filter idx {idx} out of range for DURING_TURN_ACTION_DIM"
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
             player_tensor.append(turn.player)
 
-- 
2.43.0


From a0e6510701f91f5dea1b61899261a8f13134245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 26/37] fix: encoder embeds each field for the events that
 carry it (masks were inverted)

---
 MahjongAI/agents/transformer.py            | 18 +++++++++---------
 MahjongAI/agents/transformer_conv.py       | 18 +++++++++---------
 MahjongAI/agents/transformer_conv_large.py | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index bd9171d..13101e2 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri == 1)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 1711d14..b7193e7 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri == 1)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index d0df3bf..62e7cab 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri == 1)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
-- 
2.43.0


From 6f59bfcd968464122a39fa5278d1b9adcaa53216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 27/37] fix: a log that fails an integrity check no longer ends
 the program

---
 MahjongAI/utils/dataloader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index e330fdd..ed6c462 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -1,5 +1,4 @@
 import os
-import sys
 import torch
 
 from MahjongAI.process_xml import process, InvalidGameException
@@ -39,7 +38,7 @@ class DataLoader:
                 continue  # Skip to the next file
             except AssertionError as e:
                 print(f"Assertion error: {e} happened in {filename}")
-                sys.exit(1) # TODO: remove this line
+                continue
             except Exception as e:
                 print(f"Unexpected error: {e} happened in {filename}")
                 continue
-- 
2.43.0


From 6cf5baf03a3925823f743cb75b8fef6f8d3a299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 28/37] fix: no empty batch when the remaining logs are all
 skipped

---
 MahjongAI/utils/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index ed6c462..e5ec9e7 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -47,6 +47,10 @@ class DataLoader:
             all_halfturns_list.append(all_halfturns)
             all_encoding_tokens_list.append(all_encoding_tokens)
 
+        # every remaining log was skipped
+        if not all_halfturns_list:
+            raise StopIteration
+
         self.log_func(f"{self.__repr__()} - Batch {self.batch_count}")
 
         return all_halfturns_list, all_encoding_tokens_list
-- 
2.43.0


From 4b95a8f5a0a7cab82ec0e96dd7190558395a1894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 29/37] fix: an interrupted save no longer leaves an incomplete
 checkpoint to resume from

---
 MahjongAI/supervised_learning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index beb9ae8..ed46355 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -179,7 +179,10 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
             model_path = os.path.join(
                 checkpoint_dir, f"model_{model_name}_checkpoint_iter_{iter}.pt"
             )
-            torch.save(model.state_dict(), model_path)
+            # write aside and rename, so that an interrupted save never leaves
+            # an incomplete file that the next run would load
+            torch.save(model.state_dict(), model_path + ".tmp")
+            os.replace(model_path + ".tmp", model_path)
             log_message(f"Model saved at {model_path}")
 
         train_dataloader.reset()
-- 
2.43.0


From 4cdcca2c0d815fe24b70ee53c761e2eb2510015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 30/37] fix: the learning rate stays at its floor after the
 last scheduled step

---
 MahjongAI/supervised_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index ed46355..5cba4c1 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -107,7 +107,7 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
                 1.0
                 + math.cos(
                     math.pi
-                    * (step - warmup_steps)
+                    * (min(step, total_steps) - warmup_steps)
                     / float(max(1, total_steps - warmup_steps))
                 )
             )
-- 
2.43.0


From 9cc31e60c56eda0a4c5631554c837ae39c2a1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 31/37] fix: a response is trained from what the responding
 player sees

---
 MahjongAI/agents/transformer.py              |  8 ++++--
 MahjongAI/agents/transformer_conv.py         |  8 ++++--
 MahjongAI/agents/transformer_conv_large.py   |  8 ++++--
 MahjongAI/agents/transformer_conv_ordered.py |  8 ++++--
 MahjongAI/process_xml.py                     | 29 ++++++++++++++++++++
 MahjongAI/turn.py                            |  8 +++++-
 6 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index 13101e2..001d515 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -944,15 +944,17 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
                 if sum(map(len, decisions[player_idx])) == 0:
                     continue
 
+                # Create state object tensor, as the responding player sees it
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.state_of(player_idx)
+                )
+
                 contains_executed = False
                 result = 0
                 decision_mask = torch.zeros(154, dtype=torch.float32, device=device)
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index b7193e7..3eef263 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -923,15 +923,17 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
                 if sum(map(len, decisions[player_idx])) == 0:
                     continue
 
+                # Create state object tensor, as the responding player sees it
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.state_of(player_idx)
+                )
+
                 contains_executed = False
                 result = 0
                 decision_mask = torch.zeros(154, dtype=torch.float32, device=device)
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 62e7cab..1e54f02 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -923,15 +923,17 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
                 if sum(map(len, decisions[player_idx])) == 0:
                     continue
 
+                # Create state object tensor, as the responding player sees it
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.state_of(player_idx)
+                )
+
                 contains_executed = False
                 result = 0
                 decision_mask = torch.zeros(154, dtype=torch.float32, device=device)
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index e4127b3..f708677 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -1048,9 +1048,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # Iterate through players in order
             action_player = turn.player
             ordered_players = players[action_player + 1 :] + players[:action_player]
@@ -1058,6 +1055,11 @@ class TransformerTensorProcessor:
                 if sum(map(len, decisions[player_idx])) == 0:
                     continue
 
+                # Create state object tensor, as the responding player sees it
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.state_of(player_idx)
+                )
+
                 contains_executed = False
                 result = 0
                 decision_mask = torch.zeros(
diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index cbd287b..2b911f2 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -110,6 +110,33 @@ def process(file_path: str, verbose: bool = False):
         is_rinshan = False  # the next draw replaces a tile used for a kan
         result_idx = None
 
+        def get_responder_states(decisions):
+            return {
+                p: StateObject(
+                    remaining_turns=remaining_tsumo,
+                    hand_tensor=hand_tensors[p],
+                    remaining_tiles=remaining_tiles,
+                    remaining_tiles_pov=remaining_tiles_pov[p],
+                    sutehai_tensors=np.copy(sutehai_tensors),
+                    is_menzen=is_menzen,
+                    double_reaches=double_reaches,
+                    reaches=reaches,
+                    ippatsu=ippatsu,
+                    melds=melds,
+                    scores=scores,
+                    kyotaku=kyotaku,
+                    honba=honba,
+                    dora=doras,
+                    parent_tensor=parent_tensor,
+                    rounds_remaining=rounds_remaining,
+                    parent_rounds_remaining=parent_rounds_remaining,
+                    remaining_tsumo=remaining_tsumo,
+                    player=p,
+                )
+                for p in range(4)
+                if any(decisions[p])
+            }
+
         if verbose:
             print(f"Scores: {scores}")
             print(f"Parent: {parent}")
@@ -290,6 +317,7 @@ def process(file_path: str, verbose: bool = False):
                         stateObj=stateObj,
                         decisions=new_post_decisions,
                         encoding_idx=len(encoding_tokens),
+                        responder_states=get_responder_states(new_post_decisions),
                     )
 
                     halfturns.append(curr_halfturn)
@@ -505,6 +533,7 @@ def process(file_path: str, verbose: bool = False):
                     stateObj=stateObj,
                     decisions=post_decisions,
                     encoding_idx=len(encoding_tokens),
+                    responder_states=get_responder_states(post_decisions),
                 )
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
diff --git a/MahjongAI/turn.py b/MahjongAI/turn.py
index 6b10a21..a0ab0af 100644
--- a/MahjongAI/turn.py
+++ b/MahjongAI/turn.py
@@ -1,4 +1,4 @@
-from typing import List
+from typing import Dict, List, Optional
 
 from MahjongAI.state import StateObject
 from MahjongAI.decision import Decision
@@ -64,9 +64,15 @@ class PostTurn(HalfTurn):
         stateObj: StateObject,
         decisions: List[List[List[Decision]]],
         encoding_idx: int,
+        responder_states: Optional[Dict[int, StateObject]] = None,
     ):
         super().__init__(player, HalfTurn.POST, stateObj, encoding_idx)
         self.decisions = decisions
+        # what each player with a decision sees (stateObj is the acting player's)
+        self.responder_states = responder_states or {}
+
+    def state_of(self, player: int) -> StateObject:
+        return self.responder_states.get(player, self.stateObj)
 
     def __repr__(self):
         return "PostTurn Object | Player: {} | Decisions: {}".format(
-- 
2.43.0


From a8168aeba8b8a46c1379119f56a62f8fd33866dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 32/37] fix: red fives no longer lower the number of open melds
 in the shanten count

---
 MahjongAI/utils/shanten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index e699159..d0bf034 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -9,7 +9,7 @@ from MahjongAI.utils.constants import YAOCHU_TENSOR
 class ShantenSolver:
     def _init(self, hand_tensor: np.ndarray):
         self.hand_tensor = hand_tensor
-        self.n_melds = (14 - self.hand_tensor.sum()) // 3
+        self.n_melds = (14 - self.hand_tensor[:34].sum()) // 3
         self.n_mentsu = self.n_melds + sum(self.hand_tensor[27:] >= 3.0)
         self.n_taatsu = 0
         self.n_toitsu = sum(self.hand_tensor[27:] == 2.0)
-- 
2.43.0


From 9e1ff6618f1b95ef5015ab4c7b38706ab24e333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 33/37] fix: shanten count considers three equal tiles used in
 separate runs

---
 MahjongAI/utils/shanten.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index d0bf034..32ff1d4 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -121,6 +121,8 @@ class ShantenSolver:
             self.solve_normal(idx)
             self.remove_toitsu(idx)
 
+            process_shuntsu(idx)
+
         elif self.hand_tensor[idx] == 2:
             self.add_toitsu(idx)
             self.solve_normal(idx + 1)
-- 
2.43.0


From d8232adb033618c0b68afd433ae1950638eeabae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 34/37] fix: seven pairs need seven different kinds

---
 MahjongAI/utils/shanten.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 32ff1d4..7245f40 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -134,7 +134,10 @@ class ShantenSolver:
             process_shuntsu(idx)
 
     def solve_chitoitsu(self):
-        self.best_shanten = min(self.best_shanten, 6 - sum(self.hand_tensor >= 2.0))
+        # seven different pairs, so seven kinds are needed
+        n_pairs = sum(self.hand_tensor[:34] >= 2.0)
+        n_kinds = sum(self.hand_tensor[:34] >= 1.0)
+        self.best_shanten = min(self.best_shanten, 6 - n_pairs + max(0, 7 - n_kinds))
 
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
-- 
2.43.0


From 1b21dffca2707ad19abf58592169ce05d75b2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 35/37] fix: thirteen orphans count one pair of terminals or
 honors and no red five

---
 MahjongAI/utils/constants.py | 2 +-
 MahjongAI/utils/shanten.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/constants.py b/MahjongAI/utils/constants.py
index 52381ca..0b10960 100644
--- a/MahjongAI/utils/constants.py
+++ b/MahjongAI/utils/constants.py
@@ -17,7 +17,7 @@ MAX_SEQUENCE_LENGTH = 150
 
 
 YAOCHU_TENSOR = np.zeros(37)
-YAOCHU_TENSOR[[0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33, 34]] = 1.0
+YAOCHU_TENSOR[[0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33]] = 1.0
 
 
 DECISION_AGARI_IDX = 0
diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 7245f40..4ef942d 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -142,7 +142,7 @@ class ShantenSolver:
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
         self.best_shanten = min(
-            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - (max(yaochu_arr) - 1.0)
+            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - any(yaochu_arr >= 2.0)
         )
 
     def solve(self):
-- 
2.43.0


From cf6c61252f4f1c2d90323bad510acca81022b4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 36/37] fix: seven pairs and thirteen orphans are not counted
 for open hands

---
 MahjongAI/utils/shanten.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 4ef942d..424d126 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -147,8 +147,10 @@ class ShantenSolver:
 
     def solve(self):
         self.solve_normal()
-        self.solve_chitoitsu()
-        self.solve_kokushi()
+        # these two forms cannot have open melds
+        if self.n_melds == 0:
+            self.solve_chitoitsu()
+            self.solve_kokushi()
 
         return self.best_shanten
 
-- 
2.43.0


From d6004e63eb5fb747994af9d5cc62477c12c05a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 37/37] fix: shanten when tiles of which all four are held
 cannot seed a pair or a meld

---
 MahjongAI/utils/shanten.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 424d126..4097409 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -13,9 +13,14 @@ class ShantenSolver:
         self.n_mentsu = self.n_melds + sum(self.hand_tensor[27:] >= 3.0)
         self.n_taatsu = 0
         self.n_toitsu = sum(self.hand_tensor[27:] == 2.0)
-        self.n_kuttsuki = 0
+        self.n_kuttsuki = sum(self.hand_tensor[27:34] == 1.0) + sum(
+            self.hand_tensor[27:34] == 4.0
+        )
         self.best_shanten = 14
-        self.tune = 0
+        # isolated tiles that cannot be paired, as all four are in the hand
+        self.four_held = self.hand_tensor == 4.0
+        self.n_dead_honors = sum(self.four_held[27:34])
+        self.tune = self.n_dead_honors
 
     def add_shuntsu(self, idx: int):
         self.hand_tensor[idx : idx + 3] -= 1
@@ -76,14 +81,22 @@ class ShantenSolver:
             potential_mentsu = max(0, self.n_toitsu - 1) + self.n_taatsu
             if potential_mentsu + self.n_mentsu > 4:
                 shanten += potential_mentsu + self.n_mentsu - 4
-            if self.tune and not self.n_toitsu:
-                shanten += 1
+            else:
+                # one more for every meld, and for the pair, with no isolated
+                # tile left to build it from
+                n_missing = 4 - potential_mentsu - self.n_mentsu
+                n_seeds = self.n_kuttsuki - self.n_dead_honors
+                if not self.n_toitsu:
+                    n_missing += 1
+                    if self.n_kuttsuki == self.tune:
+                        n_seeds = min(n_seeds, n_missing - 1)
+                shanten += max(0, n_missing - n_seeds)
             self.best_shanten = min(self.best_shanten, shanten)
             return
 
         num = idx % 9
 
-        def process_shuntsu(idx: int, tune: bool = False):
+        def process_shuntsu(idx: int):
             if num < 7 and self.hand_tensor[idx + 2]:
                 if self.hand_tensor[idx + 1]:
                     self.add_shuntsu(idx)
@@ -98,14 +111,13 @@ class ShantenSolver:
                 self.solve_normal(idx)
                 self.remove_taatsu(idx, 2)
 
-            self.add_kuttsuki(idx, tune)
+            self.add_kuttsuki(idx, self.four_held[idx])
             self.solve_normal(idx)
-            self.remove_kuttsuki(idx, tune)
+            self.remove_kuttsuki(idx, self.four_held[idx])
 
         if self.hand_tensor[idx] == 4:
             self.add_koutsu(idx)
-            process_shuntsu(idx, tune=True)
-            self.solve_normal(idx + 1)
+            process_shuntsu(idx)
             self.remove_koutsu(idx)
 
             self.add_toitsu(idx)
-- 
2.43.0

