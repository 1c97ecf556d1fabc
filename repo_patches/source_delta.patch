From b2b1cd5df2964893f49a1eae7a1ba73b84dfa812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 01/78] fix: Contexts no longer shares spare capacity between
 compositions

---
 context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 7c6da8d..4c9f1ff 100644
--- a/context.go
+++ b/context.go
@@ -38,9 +38,9 @@ func Contexts(cs ...Context) Context {
 		as, haveAs := a.(contexts)
 		bs, haveBs := b.(contexts)
 		if haveAs && haveBs {
-			a = append(as, bs...)
+			a = append(as[:len(as):len(as)], bs...)
 		} else if haveAs {
-			a = append(as, b)
+			a = append(as[:len(as):len(as)], b)
 		} else if haveBs {
 			a = append(contexts{a}, bs...)
 		} else {
-- 
2.43.0


From 247110fea7d5ac7a99dbb97e36ac20174b505ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 02/78] fix: DecodeEscape no longer panics on empty input

---
 ansi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 6a80a96..f6ed868 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -64,7 +64,7 @@ func DecodeEscape(p []byte) (e Escape, arg []byte, n int) {
 			return Escape(r), sa, m + sn
 		}
 	}
-	if p[0] == 0x1B {
+	if len(p) > 0 && p[0] == 0x1B {
 		// Encode translated C1 control character so that caller can act on it.
 		utf8.EncodeRune(p[:m], r)
 	}
-- 
2.43.0


From 5075882ebe129cd89c405381eb59e4a86fb699f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 03/78] fix: DecodeNumber reports range errors and input
 without any number

---
 ansi/decode.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index f6ed868..5dc9475 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -279,12 +279,15 @@ func DecodeNumber(p []byte) (r, n int, _ error) {
 				continue
 			} // else un+v overflows
 		} // else un*10 overflows
-		if !neg && maxVal >= cutoff {
-			return int(cutoff - 1), n, errRange
-		}
-		if neg && maxVal > cutoff {
-			return -int(cutoff), n, errRange
+		if neg {
+			return -int(maxVal), n, errRange
 		}
+		return int(maxVal), n, errRange
+	}
+
+	// No digits, nor anything skipped before them.
+	if n == 0 {
+		return 0, 0, errSyntax
 	}
 
 	if neg {
-- 
2.43.0


From beb20055bede467974a6cdc2b60fc4e5abbddc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:05 +0000
Subject: [PATCH 04/78] fix: a cancelled sequence ending the input no longer
 decodes as U+FFFD

---
 buffer.go           | 3 +++
 cmd/decode/main.go  | 3 +++
 cmd/to24bit/main.go | 3 +++
 x/platform/event.go | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/buffer.go b/buffer.go
index 9f85fb6..0f72ae4 100644
--- a/buffer.go
+++ b/buffer.go
@@ -152,6 +152,9 @@ func Process(proc Processor, p []byte) (n int) {
 		e, a, m := ansi.DecodeEscape(p[n:])
 		n += m
 		if e == 0 {
+			if n == len(p) {
+				return n // nothing left to decode, e.g. after a cancelled sequence
+			}
 			switch r, m := utf8.DecodeRune(p[n:]); r {
 			case '\x1b':
 				return n
diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 5692913..6e767d0 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -98,6 +98,9 @@ func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
 			buf.Next(n)
 		}
 		if e == 0 {
+			if buf.Len() == 0 {
+				break // nothing left to decode, e.g. after a cancelled sequence
+			}
 			r, n := utf8.DecodeRune(buf.Bytes())
 			switch r {
 			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index cd9b39b..1675951 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -52,6 +52,9 @@ func processMore(ateof bool) (err error) {
 		e, a, n := ansi.DecodeEscape(readBuf.Bytes())
 		readBuf.Next(n)
 		if e == 0 {
+			if readBuf.Len() == 0 {
+				break // nothing left to decode, e.g. after a cancelled sequence
+			}
 			r, n := utf8.DecodeRune(readBuf.Bytes())
 			const esc = 0x1b
 			if r == esc && readBuf.Len() == 1 && !ateof {
diff --git a/x/platform/event.go b/x/platform/event.go
index 5baed5c..3739191 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -190,6 +190,9 @@ func (es *Events) DecodeBytes(b []byte) {
 		e, a, n := ansi.DecodeEscape(b)
 		b = b[n:]
 		if e == 0 {
+			if len(b) == 0 {
+				return // nothing left to decode, e.g. after a cancelled sequence
+			}
 			r, n := utf8.DecodeRune(b)
 			b = b[n:]
 			e = ansi.Escape(r)
-- 
2.43.0


From dd9c6934581fae0118a3d4bae85a68db2e1e1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 05/78] fix: Attr.Exit after a failed Enter no longer writes
 zeroed attributes

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index bbf46c0..cd0fde5 100644
--- a/attr.go
+++ b/attr.go
@@ -124,6 +124,9 @@ func (at *Attr) Enter(term *Term) (err error) {
 	}
 	at.orig, err = at.getAttr()
 	if err != nil {
+		if !at.ownFile {
+			at.file = nil // nothing was recorded for Exit to restore
+		}
 		return fmt.Errorf("failed to get termios attrs: %v", err)
 	}
 	at.cur = at.modifyTermios(at.orig)
-- 
2.43.0


From 02e3296c7e024d0496a336d435c46bc808b1ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 06/78] fix: disabling Input's non-blocking or async mode
 clears its file flag

---
 input.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/input.go b/input.go
index d7e20a4..6eea15f 100644
--- a/input.go
+++ b/input.go
@@ -276,7 +276,7 @@ func (in *Input) ReadAny() (n int, err error) {
 // Enter gets the current fcntl flags for restoration during Exit(), and sets
 // non-blocking/async modes if needed.
 func (in *Input) Enter(term *Term) error {
-	prior, err := in.setFlags()
+	prior, err := in.setFlags(0)
 	if err == nil {
 		in.oldFlags = prior
 	}
@@ -348,7 +348,7 @@ func (in *Input) setAsync(async bool) error {
 		return nil
 	}
 	in.async = async
-	if _, err := in.setFlags(); err != nil {
+	if _, err := in.setFlags(syscall.O_ASYNC); err != nil {
 		return err
 	}
 	if in.async && in.File != nil {
@@ -365,11 +365,12 @@ func (in *Input) setNonblock(nonblock bool) error {
 		return nil
 	}
 	in.nonblock = nonblock
-	_, err := in.setFlags()
+	_, err := in.setFlags(syscall.O_NONBLOCK)
 	return err
 }
 
-func (in *Input) setFlags() (prior uintptr, _ error) {
+// setFlags sets any enabled mode flags after clearing the given ones.
+func (in *Input) setFlags(clear uintptr) (prior uintptr, _ error) {
 	if in.File == nil {
 		return 0, nil
 	}
@@ -378,7 +379,7 @@ func (in *Input) setFlags() (prior uintptr, _ error) {
 		return 0, fmt.Errorf("failed to get input file flags: %v", err)
 	}
 	prior = flags
-	flags = in.buildFlags(flags)
+	flags = in.buildFlags(flags &^ clear)
 	_, _, err = in.fcntl(syscall.F_SETFL, flags)
 	if err != nil {
 		return prior, fmt.Errorf("failed to set input file flags: %v", err)
-- 
2.43.0


From 6f7dc6ec5065749937430b397a9d5f44c321df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:23 +0000
Subject: [PATCH 07/78] fix: Input.ReadMore retries as a blocking read after
 EWOULDBLOCK

---
 input.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/input.go b/input.go
index 6eea15f..159f4c2 100644
--- a/input.go
+++ b/input.go
@@ -195,9 +195,11 @@ func (in *Input) ReadMore() (int, error) {
 			if n > 0 {
 				return n, nil
 			}
+			in.nonblock = true // the file is, even if not by our doing
 			if err := in.setNonblock(false); err != nil {
 				return 0, err
 			}
+			continue
 
 		case nil:
 			in.ateof = false
-- 
2.43.0


From 9e6952ecd712b013ff4790277248867a336c6b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:51 +0000
Subject: [PATCH 08/78] fix: SGRReset encodes the clear code rather than a NUL
 byte

---
 ansi/sgr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/sgr.go b/ansi/sgr.go
index ccf77a8..8de1779 100644
--- a/ansi/sgr.go
+++ b/ansi/sgr.go
@@ -47,7 +47,7 @@ const (
 
 // SGRReset resets graphic rendition (foreground, background, text and other
 // character attributes) to default.
-var SGRReset = SGR.With(SGRCodeClear)
+var SGRReset = SGR.WithInts(SGRCodeClear)
 
 // SGRAttr represents commonly used SGR attributes (ignoring blinks and fonts).
 type SGRAttr uint64
-- 
2.43.0


From 4dfdae5b77de4dd0b7823e32f3940718ad5fa4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 09/78] fix: DecodeSGR decodes the concealed attribute that
 SGRAttr encodes

---
 ansi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 5dc9475..86874fb 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -334,7 +334,7 @@ func DecodeSGR(a []byte) (attr SGRAttr, n int, _ error) {
 					0, // slow blink not supported
 					0, // fast blink not supported
 					SGRAttrNegative,
-					0, // concealed not supported
+					SGRAttrConceal,
 				}[a[n]-'0']; at {
 				case 0:
 				case SGRAttrClear:
-- 
2.43.0


From 57886325ad35c5dbcb0fad07c027ba725f4b5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:55 +0000
Subject: [PATCH 10/78] fix: ModeMouseX10 is a private mode

---
 ansi/modes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/modes.go b/ansi/modes.go
index 5e2ec9b..6db8a5e 100644
--- a/ansi/modes.go
+++ b/ansi/modes.go
@@ -27,7 +27,7 @@ func (mode Mode) Reset() Seq {
 // private mode constants
 // TODO more coverage
 const (
-	ModeMouseX10 Mode = 9
+	ModeMouseX10 = ModePrivate | 9
 )
 
 // xterm mode constants; see http://invisible-island.net/xterm/ctlseqs/ctlseqs.html.
-- 
2.43.0


From ccf57a064ff63331be21203876ec7fd602bdab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:57 +0000
Subject: [PATCH 11/78] fix: RectFromImage returns the converted rectangle

---
 ansi/geom.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ansi/geom.go b/ansi/geom.go
index fe69b07..c4e6e11 100644
--- a/ansi/geom.go
+++ b/ansi/geom.go
@@ -45,6 +45,7 @@ func RectFromImage(ir image.Rectangle) (r Rectangle) {
 	if ir.Min.X < 0 || ir.Min.Y < 0 || ir.Max.X < 0 || ir.Max.Y < 0 {
 		panic("out of bounds image.Rectangle value")
 	}
+	r.Min, r.Max = PtFromImage(ir.Min), PtFromImage(ir.Max)
 	return r
 }
 
-- 
2.43.0


From 31f0bbfe291071e543561fc6d94c8b5b92110f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:11 +0000
Subject: [PATCH 12/78] fix: encode every escape identifier, character set
 selections in order

---
 ansi/control.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/ansi/control.go b/ansi/control.go
index 960eaa4..61d7348 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -28,8 +28,9 @@ type Seq struct {
 
 func (id Escape) seq() Seq {
 	switch {
-	case 0x0000 < id && id < 0x001F,
-		0xEF00 < id && id < 0xEFFF:
+	case 0x0000 < id && id <= 0x001F,
+		0xEF00 < id && id < 0xEF7F,
+		0xEF80 < id && id < 0xEFFF:
 		return Seq{id: id}
 	}
 	panic(fmt.Sprintf("not an Control or Escape rune: %U", id))
@@ -122,11 +123,11 @@ func (seq Seq) WithPoint(p Point) Seq { return seq.WithInts(p.Y, p.X) }
 func (id Escape) AppendTo(p []byte) []byte {
 	// TODO stricter
 	switch {
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id < 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(p, '\x1b', byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(p, '\x1b', '[', byte(id&0x7F))
@@ -141,9 +142,11 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control, named by its first byte
+		return append(append(p, '\x1b', byte(id&0x7F)), arg...)
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(append(append(p, '\x1b'), arg...), byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(append(append(p, '\x1b', '['), arg...), byte(id&0x7F))
@@ -158,7 +161,7 @@ func (seq Seq) AppendTo(p []byte) []byte {
 	}
 	switch id := seq.id; {
 	case id == 0:
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		p = append(p, byte(id))
 		p = seq.appendArgBytes(p)
 	case 0xEF80 < id && id < 0xEFFF: // CSI
@@ -166,15 +169,16 @@ func (seq Seq) AppendTo(p []byte) []byte {
 		p = seq.appendArgBytes(p)
 		p = seq.appendArgNums(p)
 		p = append(p, byte(id&0x7F))
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control
+		// NOTE character set selection sequences are special, in that they're
+		// always a 3 byte sequence, and identified by the first
+		// (intermediate range) byte after the ESC
+		p = append(p, '\x1b', byte(id&0x7F))
+		p = seq.appendArgBytes(p)
 	case 0xEF00 < id && id < 0xEF7F: // ESC
 		p = append(p, '\x1b')
 		p = seq.appendArgBytes(p)
 		p = append(p, byte(id&0x7F))
-	case 0xEF20 < id && id < 0xEF2F: // ESC character set control
-		// NOTE character set selection sequences are special, in that they're
-		// always a 3 byte sequence, and identified by the first
-		// (intermediate range) byte after the ESC
-		p = append(p, '\x1b', byte(id&0x7F), seq.argBytes[0])
 	default:
 		panic("inconceivable: should not be able to construct a Seq like that")
 	}
@@ -220,9 +224,9 @@ func (id Escape) Size() int {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return 1
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return 2
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return 2
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return 3
-- 
2.43.0


From 7816abb29cca68e665a2f5b77da40958d32fc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 13/78] fix: ColorModels no longer shares spare capacity
 between combinations

---
 ansi/colors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index 71cb641..d2b8796 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -465,9 +465,9 @@ func ColorModels(models ...ColorModel) ColorModel {
 		as, haveAs := a.(colorModels)
 		bs, haveBs := b.(colorModels)
 		if haveAs && haveBs {
-			a = append(as, bs...)
+			a = append(as[:len(as):len(as)], bs...)
 		} else if haveAs {
-			a = append(as, b)
+			a = append(as[:len(as):len(as)], b)
 		} else if haveBs {
 			a = append(colorModels{a}, bs...)
 		} else {
-- 
2.43.0


From 6c8b00b525afc0da89117bf52c47e245a721bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 14/78] fix: Cursor.To emits vertical motion

---
 state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 5104884..112acf7 100644
--- a/state.go
+++ b/state.go
@@ -158,7 +158,7 @@ func (cs *Cursor) To(pt ansi.Point) ansi.Seq {
 		return ansi.CUB.WithInts(-dx)
 	}
 
-	dy := pt.X - cs.X
+	dy := pt.Y - cs.Y
 	cs.Y = pt.Y
 	switch {
 	case dy == 0:
-- 
2.43.0


From f8d935c2211f7c1deb151ded67f7ce1e93bd2ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 15/78] fix: VirtualCursor.Apply does not process its own
 output again

---
 cursor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index 815ba18..e7217c9 100644
--- a/cursor.go
+++ b/cursor.go
@@ -124,7 +124,9 @@ func (c *VirtualCursor) Hide() {
 // Apply the given cursor state, writing any necessary escape sequences into
 // the internal buffer.
 func (c *VirtualCursor) Apply(cs Cursor) {
-	_, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	var n int
+	n, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	c.buf.Skip(n)
 }
 
 var _ ansiWriter = &VirtualCursor{}
-- 
2.43.0


From bf9bf0a01e22e0d5436adfe5fc8841d27a9839a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:40 +0000
Subject: [PATCH 16/78] fix: erasing to the end of the screen includes the
 cursor's cell

---
 state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 112acf7..cafddaa 100644
--- a/state.go
+++ b/state.go
@@ -395,7 +395,7 @@ func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 		switch val {
 		case '0': // Erase from current position to bottom of screen inclusive
 			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
-				sc.clearRegion(i+1, len(sc.Rune))
+				sc.clearRegion(i, len(sc.Rune))
 			}
 		case '1': // Erase from top of screen to current position inclusive
 			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
-- 
2.43.0


From c70d7cbe7e03fef4fb21508016567b4e56a9b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:42 +0000
Subject: [PATCH 17/78] fix: ED and EL without an argument erase to the end

---
 state.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/state.go b/state.go
index cafddaa..80022c8 100644
--- a/state.go
+++ b/state.go
@@ -387,7 +387,9 @@ func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 	switch e {
 	case ansi.ED:
 		var val byte
-		if len(a) == 1 {
+		if len(a) == 0 {
+			val = '0'
+		} else if len(a) == 1 {
 			val = a[0]
 		} else {
 			return
@@ -407,7 +409,9 @@ func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 
 	case ansi.EL:
 		var val byte
-		if len(a) == 1 {
+		if len(a) == 0 {
+			val = '0'
+		} else if len(a) == 1 {
 			val = a[0]
 		} else {
 			return
-- 
2.43.0


From 5cf903839ecd3ca0a1c3c9eea1ebc52626911175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 18/78] fix: ScreenDiffer keeps unwritten output apart, and its
 real cursor in step

---
 screen.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/screen.go b/screen.go
index dd4a073..6a43c2f 100644
--- a/screen.go
+++ b/screen.go
@@ -24,6 +24,8 @@ type ScreenDiffer struct {
 
 	VirtualScreen
 	Real Screen
+
+	out Buffer // output not yet written by WriteTo
 }
 
 // VirtualScreen implements minimal terminal emulation around ScreenState.
@@ -43,6 +45,12 @@ type VirtualScreen struct {
 
 // Reset calls Clear() and restores virtual cursor state.
 func (sc *ScreenDiffer) Reset() {
+	if sc.out.Len() > 0 {
+		// real state is unknown after a partial write
+		sc.out.Reset()
+		sc.Real.Cursor = Cursor{}
+		sc.Invalidate()
+	}
 	sc.Clear()
 	sc.VirtualScreen.Cursor = sc.Real.Cursor
 }
@@ -89,7 +97,7 @@ func (sc *ScreenDiffer) WriteTo(w io.Writer) (n int64, err error) {
 
 	state := sc.Real
 	defer func() {
-		if err == nil {
+		if err == nil || unwrapOSError(err) == syscall.EWOULDBLOCK {
 			sc.Real = state
 		}
 	}()
@@ -100,19 +108,20 @@ func (sc *ScreenDiffer) WriteTo(w io.Writer) (n int64, err error) {
 	// then flush to the given io.Writer
 	if !haveAW {
 		defer func() {
-			n, err = sc.buf.WriteTo(w)
+			n, err = sc.out.WriteTo(w)
 			if err != nil && unwrapOSError(err) != syscall.EWOULDBLOCK {
+				sc.Real.Cursor = Cursor{}
 				sc.Reset()
 				sc.Invalidate()
 			}
 		}()
 
 		// continue prior write (e.g. after isEWouldBlock(err) above)
-		if sc.buf.Len() > 0 {
+		if sc.out.Len() > 0 {
 			return
 		}
 
-		aw = &sc.buf
+		aw = &sc.out
 	}
 
 	// enforce final user cursor state
-- 
2.43.0


From fc21c711300ef888cce7e97ef072a57168b40f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 19/78] fix: a line feed on the last row scrolls the screen

---
 state.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/state.go b/state.go
index 80022c8..a68032e 100644
--- a/state.go
+++ b/state.go
@@ -378,7 +378,10 @@ func (sc *Screen) ProcessANSI(e ansi.Escape, a []byte) {
 		}
 		if sc.Cursor.X++; sc.Cursor.X >= br.Max.X {
 			sc.Cursor.X = br.Min.X
-			sc.linefeed()
+			// NOTE filling the last cell does not scroll, only a later line feed
+			if sc.Cursor.Y+1 < br.Max.Y {
+				sc.Cursor.Y++
+			}
 		}
 	}
 }
@@ -467,15 +470,17 @@ func (sc *Screen) linefeed() {
 }
 
 func (sc *Screen) scrollBy(n int) {
-	i, ok := sc.CellOffset(sc.Cursor.Point.Add(image.Pt(1, 2)))
-	if !ok {
-		return
-	}
-	for j := copy(sc.Grid.Rune, sc.Grid.Rune[i:]); j < len(sc.Grid.Rune); j++ {
-		sc.Grid.Rune[j] = 0
-	}
-	for j := copy(sc.Grid.Attr, sc.Grid.Attr[i:]); j < len(sc.Grid.Attr); j++ {
-		sc.Grid.Attr[j] = 0
+	r := sc.Bounds()
+	for pt := r.Min; pt.Y < r.Max.Y; pt.Y++ {
+		i, _ := sc.CellOffset(pt)
+		j, ok := sc.CellOffset(pt.Add(image.Pt(0, n)))
+		for k := 0; k < r.Dx(); k++ {
+			if ok {
+				sc.Grid.Rune[i+k], sc.Grid.Attr[i+k] = sc.Grid.Rune[j+k], sc.Grid.Attr[j+k]
+			} else {
+				sc.Grid.Rune[i+k], sc.Grid.Attr[i+k] = 0, 0
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 1fc5dd2ad1ba5b0b329383efc9aa18425994929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:58 +0000
Subject: [PATCH 20/78] fix: resizing a sub-grid keeps it within its underlying
 grid

---
 grid.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/grid.go b/grid.go
index c2c3db4..ad6b108 100644
--- a/grid.go
+++ b/grid.go
@@ -22,11 +22,12 @@ func (g *Grid) Resize(size image.Point) bool {
 		return false
 	}
 	if g.IsSub() {
-		if size.X > g.Stride {
-			size.X = g.Stride
+		max := g.Full().Rect.Max.Sub(g.Rect.Min.Point)
+		if size.X > max.X {
+			size.X = max.X
 		}
-		if g.Stride*size.Y > len(g.Rune) {
-			size.Y = len(g.Rune) / g.Stride
+		if size.Y > max.Y {
+			size.Y = max.Y
 		}
 		g.Rect.Max = g.Rect.Min.Add(size)
 	} else {
-- 
2.43.0


From 0cca3b38fcd07257aa0b37352407f7292117d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 21/78] fix: a grid without any column is no sub-grid

---
 grid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid.go b/grid.go
index ad6b108..2437e00 100644
--- a/grid.go
+++ b/grid.go
@@ -94,7 +94,7 @@ func (g Grid) CellOffset(pt ansi.Point) (int, bool) {
 // IsSub returns true if the grid's bounding rectangle only covers a
 // sub-section of its underlying data.
 func (g *Grid) IsSub() bool {
-	return g.Rect.Size() != g.fullSize()
+	return g.Stride != 0 && g.Rect.Size() != g.fullSize()
 }
 
 func (g *Grid) fullSize() image.Point {
-- 
2.43.0


From ddee2367ec74d65029720999b7b4ff4fecb8067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 22/78] fix: DrawGrid with styles advances in both grids

---
 draw.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/draw.go b/draw.go
index 9c96863..4280176 100644
--- a/draw.go
+++ b/draw.go
@@ -31,9 +31,11 @@ func DrawGrid(dst, src Grid, styles ...Style) {
 			sii++
 			dii++
 			sp.X++
+			dp.X++
 		}
 		si += src.Stride
 		di += dst.Stride
+		sp.Y++
 		dp.Y++
 	}
 }
-- 
2.43.0


From 8d0853f841e21a1aee8fe8dc1ac13493bbee8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 23/78] fix: TransparentAttrBGFG acts as both of the styles it
 combines

---
 style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/style.go b/style.go
index b27a746..47f2634 100644
--- a/style.go
+++ b/style.go
@@ -140,7 +140,7 @@ var (
 
 	// TransparentAttrBGFG is a style that acts as both TransparentBG and
 	// TransparentAttrFG combined.
-	TransparentAttrBGFG Style = transparentAttrStyle(ansi.SGRAttrBGMask | ansi.SGRAttrFGMask | ansi.SGRAttrMask)
+	TransparentAttrBGFG = Styles(TransparentAttrBG, TransparentAttrFG)
 )
 
 type transparentRuneStyle struct{}
-- 
2.43.0


From 860b721279e0debe570f9adb8ca963352ff2ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 24/78] fix: Screen.SubRect clamps the cursor to the resulting
 bounds

---
 state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state.go b/state.go
index a68032e..52572c0 100644
--- a/state.go
+++ b/state.go
@@ -60,7 +60,7 @@ func (sc Screen) SubSize(sz image.Point) Screen {
 // given rectangle; clamps the cursor to the new bounding rectangle.
 func (sc Screen) SubRect(r ansi.Rectangle) Screen {
 	sc.Grid = sc.Grid.SubRect(r)
-	sc.Cursor.Point = clampPointTo(sc.Cursor.Point, r)
+	sc.Cursor.Point = clampPointTo(sc.Cursor.Point, sc.Grid.Rect)
 	return sc
 }
 
-- 
2.43.0


From 14960b3ab0f5952a7a7f5be9839f4e1f118320a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 25/78] fix: Bitmap.Load keeps a partial last row, and accepts
 less than one row

---
 bitmap.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bitmap.go b/bitmap.go
index 2df4c15..6e9c97f 100644
--- a/bitmap.go
+++ b/bitmap.go
@@ -15,8 +15,11 @@ type Bitmap struct {
 
 // Load the given bit data into the bitmap.
 func (bi *Bitmap) Load(stride int, data []bool) {
-	h := len(data) / stride
-	for i, n := 0, len(data)%h; i < n; i++ {
+	h := 0
+	if stride > 0 {
+		h = (len(data) + stride - 1) / stride
+	}
+	for len(data) < stride*h {
 		data = append(data, false)
 	}
 	bi.Bit = data
-- 
2.43.0


From d939ef80bde5d41c737c712edd962e80d0c6e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 26/78] fix: WriteBitmap of a sub-bitmap does not start with an
 empty line

---
 render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render.go b/render.go
index 3157ac4..6fb609f 100644
--- a/render.go
+++ b/render.go
@@ -134,7 +134,7 @@ func WriteBitmap(w io.Writer, bi Bitmap, styles ...Style) (int, error) {
 
 func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cursor) {
 	for bp := bi.Rect.Min; bp.Y < bi.Rect.Max.Y; bp.Y += 4 {
-		if bp.Y > 0 {
+		if bp.Y > bi.Rect.Min.Y {
 			n += aw.WriteSeq(cur.NewLine())
 		}
 		for bp.X = bi.Rect.Min.X; bp.X < bi.Rect.Max.X; bp.X += 2 {
-- 
2.43.0


From 82659851f5da0809a765910ddf6176d1f9482663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 27/78] fix: Grid.Eq compares sizes, and only the cells within
 bounds

---
 grid.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/grid.go b/grid.go
index 2437e00..2538ee6 100644
--- a/grid.go
+++ b/grid.go
@@ -148,25 +148,28 @@ func (g Grid) SubRect(r ansi.Rectangle) Grid {
 // Eq returns true only if the other grid has the same size and contents as the
 // receiver.
 func (g Grid) Eq(other Grid, zero rune) bool {
-	n := len(g.Rune)
-	if n != len(other.Rune) {
+	size := g.Rect.Size()
+	if size != other.Rect.Size() {
 		return false
 	}
-	i := 0
-	for ; i < n; i++ {
-		if g.Attr[i] != other.Attr[i] {
-			return false
-		}
-		gr, or := g.Rune[i], other.Rune[i]
-		if gr == 0 {
-			gr = zero
-		}
-		if or == 0 {
-			or = zero
-		}
-		if gr != or {
-			return false
+	for gp, _, gi, oi := copySetup(g, other); gp.Y < g.Rect.Max.Y; gp.Y++ {
+		for i, j := gi, oi; i < gi+size.X; i, j = i+1, j+1 {
+			if g.Attr[i] != other.Attr[j] {
+				return false
+			}
+			gr, or := g.Rune[i], other.Rune[j]
+			if gr == 0 {
+				gr = zero
+			}
+			if or == 0 {
+				or = zero
+			}
+			if gr != or {
+				return false
+			}
 		}
+		gi += g.Stride
+		oi += other.Stride
 	}
 	return true
 }
-- 
2.43.0


From 34bf85a22adc8d0c0a856d0504826674d34d073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 28/78] fix: NoopStyle leaves the attribute as it is

---
 style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/style.go b/style.go
index 47f2634..2143eb6 100644
--- a/style.go
+++ b/style.go
@@ -57,7 +57,7 @@ func (f StyleFunc) Style(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, an
 type _noopStyle struct{}
 
 func (ns _noopStyle) Style(p ansi.Point, pr, r rune, pa, a ansi.SGRAttr) (rune, ansi.SGRAttr) {
-	return r, 0
+	return r, a
 }
 
 // NoopStyle is a no-op style, used as a zero fill by Styles.
-- 
2.43.0


From 62092b82adc2c8985a381ec99a0d096cc80ce1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 29/78] fix: WriteBitmap resets the attribute for cells without
 one

---
 render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render.go b/render.go
index 6fb609f..7d8fc08 100644
--- a/render.go
+++ b/render.go
@@ -142,7 +142,7 @@ func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cu
 			sr := bi.Rune(bp)
 			r, a := style.Style(sp, 0, sr, 0, 0)
 
-			if a != 0 {
+			if a != 0 || cur.Attr != 0 {
 				ad := cur.MergeSGR(a)
 				n += aw.WriteSGR(ad)
 			}
-- 
2.43.0


From 3153140282996925e11601ce44c1657f9f28b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 30/78] fix: the cursor is not known after writing the last
 column

---
 render.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/render.go b/render.go
index 7d8fc08..e262280 100644
--- a/render.go
+++ b/render.go
@@ -60,6 +60,9 @@ func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor)
 			pt.Y++
 		}
 	}
+	if cur.X >= g.Rect.Max.X {
+		cur.Point = ansi.ZP // about to wrap
+	}
 	return n, cur
 }
 
@@ -111,6 +114,9 @@ func writeGridDiff(aw ansiWriter, g Grid, prior Screen, style Style) (int, Scree
 			pt.Y++
 		}
 	}
+	if prior.Cursor.X >= g.Rect.Max.X {
+		prior.Cursor.Point = ansi.ZP // about to wrap
+	}
 	return n, prior
 }
 
-- 
2.43.0


From b7baf1f02eef07c291ff60e155f86baaed9acd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 31/78] fix: Bitmap.Load does not pad into the spare capacity
 of its data

---
 bitmap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitmap.go b/bitmap.go
index 6e9c97f..500ad3a 100644
--- a/bitmap.go
+++ b/bitmap.go
@@ -19,6 +19,7 @@ func (bi *Bitmap) Load(stride int, data []bool) {
 	if stride > 0 {
 		h = (len(data) + stride - 1) / stride
 	}
+	data = data[:len(data):len(data)]
 	for len(data) < stride*h {
 		data = append(data, false)
 	}
-- 
2.43.0


From 6028ab1a3c221ff8b88f109cf6c90254844bbe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 32/78] fix: Process keeps an incomplete CSI sequence or rune,
 and leaves its bytes as written

---
 buffer.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/buffer.go b/buffer.go
index 0f72ae4..1269970 100644
--- a/buffer.go
+++ b/buffer.go
@@ -149,19 +149,26 @@ func (b *Buffer) Process(proc Processor) {
 // Process decodes ansi escapes and utf8 runes from p, passing them to proc.
 func Process(proc Processor, p []byte) (n int) {
 	for n < len(p) {
+		var intro [2]byte
+		copy(intro[:], p[n:])
 		e, a, m := ansi.DecodeEscape(p[n:])
 		n += m
 		if e == 0 {
-			if n == len(p) {
-				return n // nothing left to decode, e.g. after a cancelled sequence
+			if m > 0 {
+				continue // e.g. after a cancelled sequence
 			}
-			switch r, m := utf8.DecodeRune(p[n:]); r {
-			case '\x1b':
+			r, rm := utf8.DecodeRune(p[n:])
+			if 0x80 <= r && r <= 0x9F {
+				copy(p[n:], intro[:]) // undo any translation of the control by DecodeEscape
+			}
+			switch {
+			case r == 0x1B, r == 0x9B: // incomplete ESC or CSI
+				return n
+			case !utf8.FullRune(p[n:]):
 				return n
-			default:
-				n += m
-				e = ansi.Escape(r)
 			}
+			n += rm
+			e = ansi.Escape(r)
 		}
 		proc.ProcessANSI(e, a)
 	}
-- 
2.43.0


From 29c0fb5162e417f238f6c7c849178dcd9788316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 33/78] fix: Input.Decode waits for the rest of an incomplete
 rune, and goes on after a cancelled sequence

---
 input.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/input.go b/input.go
index 159f4c2..6338d99 100644
--- a/input.go
+++ b/input.go
@@ -138,14 +138,16 @@ func (in *Input) Decode() (e ansi.Escape, a []byte, ok bool) {
 }
 
 func (in *Input) decodeEscape() (e ansi.Escape, a []byte) {
-	if in.buf.Len() == 0 {
-		return 0, nil
-	}
-	e, a, n := ansi.DecodeEscape(in.buf.Bytes())
-	if n > 0 {
-		in.buf.Next(n)
+	for in.buf.Len() > 0 {
+		e, a, n := ansi.DecodeEscape(in.buf.Bytes())
+		if n > 0 {
+			in.buf.Next(n)
+		}
+		if e != 0 || n == 0 {
+			return e, a
+		}
 	}
-	return e, a
+	return 0, nil
 }
 
 func (in *Input) decodeRune() (rune, bool) {
@@ -154,6 +156,9 @@ func (in *Input) decodeRune() (rune, bool) {
 	}
 	r, n := utf8.DecodeRune(in.buf.Bytes())
 	if !in.ateof {
+		if !utf8.FullRune(in.buf.Bytes()) {
+			return 0, false
+		}
 		switch r {
 		case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 			return 0, false
-- 
2.43.0


From 5d1e40de9e79b33d95b2d4937ee6ff75ba08c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 34/78] fix: a string control holding U+FFFD is decoded

---
 ansi/decode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 86874fb..e264025 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -205,10 +205,10 @@ term:
 func decodeString(p []byte) (a []byte, n int) {
 	r, m := DecodeRune(p)
 	for {
-		switch r {
-		case utf8.RuneError:
+		switch {
+		case r == utf8.RuneError && m < 2: // incomplete or invalid
 			return nil, 0
-		case 0x9C:
+		case r == 0x9C:
 			return p[:n], n + m
 		}
 		n += m
-- 
2.43.0


From c43abb8287410b2b6612f60b42b40d9dbe3f0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 35/78] fix: ReadInputReplay gives back exactly the recorded
 bytes and errors, frame by frame

---
 input.go | 95 +++++++++++++++++++-------------------------------------
 1 file changed, 32 insertions(+), 63 deletions(-)

diff --git a/input.go b/input.go
index 6338d99..417542b 100644
--- a/input.go
+++ b/input.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/signal"
 	"runtime"
@@ -455,97 +456,65 @@ func (frm InputFrame) String() string {
 	if len(frm.B) == 0 {
 		_, _ = buf.WriteString(" mark")
 	} else {
-		_, _ = fmt.Fprintf(&buf, " %q", frm.M)
+		_, _ = fmt.Fprintf(&buf, " %q", frm.B)
 	}
 	return buf.String()
 }
 
 // ReadInputReplay reads an InputReplay from the provided file.
 func ReadInputReplay(f *os.File) (InputReplay, error) {
-	fi, err := f.Stat()
+	data, err := ioutil.ReadAll(f)
 	if err != nil {
 		return nil, err
 	}
 
-	estBytes := int(fi.Size())
-	estFrames := estBytes / recMarkSize
-
-	type protoFrame struct {
-		InputFrame
-		e [2]int
-		b [2]int
-		m [2]int
-	}
-
-	var (
-		in     = Input{File: f, MinReadSize: 1024}
-		frames = make([]protoFrame, 0, estFrames)
-		bs     = make([]byte, 0, estBytes)
-		off    int
-		prot   protoFrame
-	)
+	var frm InputFrame
+	result := make(InputReplay, 0, len(data)/recMarkSize)
 
 	push := func() {
-		if prot.m != [2]int{} || !prot.T.IsZero() || off < len(bs) {
-			prot.b = [2]int{off, len(bs)}
-			frames = append(frames, prot)
-			prot = protoFrame{}
-			off = len(bs)
+		if !frm.T.IsZero() || frm.E != nil || len(frm.B) > 0 || len(frm.M) > 0 {
+			result = append(result, frm)
+			frm = InputFrame{}
 		}
 	}
 
-	for {
-		e, a, ok := in.Decode()
-		if !ok {
-			if _, err := in.ReadMore(); err == io.EOF {
-				push()
-				break
-			} else if err != nil {
-				return nil, err
-			}
-		}
-
-		if e == 0x9F { // APC
-			switch {
+	for len(data) > 0 {
+		start, end := findAPC(data)
+		frm.B = append(frm.B, data[:start]...)
+		if start < end {
+			switch a := data[start+2 : end-2]; {
 			case bytes.HasPrefix(a, []byte("recTime:")):
 				push()
-				if parseErr := prot.T.UnmarshalText(a[8:]); parseErr != nil {
+				if parseErr := frm.T.UnmarshalText(a[8:]); parseErr != nil {
 					return nil, fmt.Errorf("invalid recTime value %q", a[8:])
 				}
 			case bytes.HasPrefix(a, []byte("recReadErr:")):
-				bs = append(bs, a[11:]...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
-				push()
+				frm.E = InputError(a[11:])
 			default:
 				push()
-				bs = append(bs, a...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
+				frm.M = a
+				push()
 			}
-		} else if e.IsEscape() {
-			bs = e.AppendWith(bs, a...)
-		} else {
-			var tmp [4]byte
-			n := utf8.EncodeRune(tmp[:], rune(e))
-			bs = append(bs, tmp[:n]...)
 		}
+		data = data[end:]
 	}
+	push()
 
-	result := make(InputReplay, len(frames))
-	for i, frm := range frames {
-		if frm.e != [2]int{} {
-			prot.E = InputError(bs[frm.e[0]:frm.e[1]])
-		}
-		if frm.b != [2]int{} {
-			frm.B = bs[frm.b[0]:frm.b[1]]
-		}
-		if frm.m != [2]int{} {
-			frm.M = bs[frm.m[0]:frm.m[1]]
+	return result, nil
+}
+
+// findAPC returns the bounds of the next Application Program Command string in
+// p, or len(p) for both if there is none. Any other bytes, which may be partial
+// sequences, are left for the caller.
+func findAPC(p []byte) (start, end int) {
+	if start = bytes.Index(p, []byte("\x1b_")); start >= 0 {
+		if end = bytes.Index(p[start:], []byte("\x1b\\")); end >= 0 {
+			end += start
+			start = bytes.LastIndex(p[:end], []byte("\x1b_"))
+			return start, end + 2
 		}
-		result[i] = frm.InputFrame
 	}
-	return result, nil
+	return len(p), len(p)
 }
 
 func unwrapOSError(err error) error {
-- 
2.43.0


From fee2d2e129529cd755171c8a6c6dfb4ac36263f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 36/78] fix: AppendWith encodes string controls with their
 argument and terminator

---
 ansi/control.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ansi/control.go b/ansi/control.go
index 61d7348..2eae932 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -143,7 +143,14 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
 	case 0x0080 <= id && id <= 0x009F: // C1 controls
-		return append(p, '\x1b', byte(0x40|id&0x1F))
+		p = append(p, '\x1b', byte(0x40|id&0x1F))
+		switch id {
+		case 0x90, 0x9D, 0x9E, 0x9F: // DCS, OSC, PM, APC + string (if any) + ST
+			if len(arg) > 0 {
+				p = append(append(p, arg...), '\x1b', '\\')
+			}
+		}
+		return p
 	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control, named by its first byte
 		return append(append(p, '\x1b', byte(id&0x7F)), arg...)
 	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
-- 
2.43.0


From afa42cc5ee52318f0be3824aad95c2f4f219d608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 37/78] fix: Input.AtEOF is false after a read that failed
 otherwise

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 417542b..8e34a66 100644
--- a/input.go
+++ b/input.go
@@ -207,7 +207,7 @@ func (in *Input) ReadMore() (int, error) {
 			}
 			continue
 
-		case nil:
+		default:
 			in.ateof = false
 		}
 
-- 
2.43.0


From 4344914d6497036f38e1cc247b82efffa725f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 38/78] fix: an ESC before an invalid byte or U+FFFD does not
 stop decoding

---
 ansi/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index e264025..6c5461c 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -96,9 +96,9 @@ func decodeESC(p []byte) (e Escape, a []byte, n int) {
 		// decode and process the next rune
 		r, m := utf8.DecodeRune(p[ni:])
 		switch {
-		case r == utf8.RuneError: // may be fixed by more bytes, caller can choose
+		case !utf8.FullRune(p[ni:]): // may be fixed by more bytes, caller can choose
 			return 0, nil, ei
-		case r > 0xFF: // higher codepoint not part of an escape sequence
+		case r > 0xFF: // higher codepoint (or invalid byte) not part of an escape sequence
 			rshift(m)
 			return 0, nil, ei
 		case 0x80 <= r && r <= 0xFF: // C1 and G1: Treat the same as their 7-bit counterparts
-- 
2.43.0


From 41c21d0e751d6a4375d3bfbd8b920a7554c86fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 39/78] fix: a string control holding invalid bytes is decoded

---
 ansi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 6c5461c..93f27e1 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -206,7 +206,7 @@ func decodeString(p []byte) (a []byte, n int) {
 	r, m := DecodeRune(p)
 	for {
 		switch {
-		case r == utf8.RuneError && m < 2: // incomplete or invalid
+		case !utf8.FullRune(p[n:]): // incomplete
 			return nil, 0
 		case r == 0x9C:
 			return p[:n], n + m
-- 
2.43.0


From 342e8b0bf89ea445b0d9140f78c57dad25bfa459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 40/78] fix: an empty string control is encoded with its
 terminator

---
 ansi/control.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/control.go b/ansi/control.go
index 2eae932..b8ef6ea 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -146,7 +146,7 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 		p = append(p, '\x1b', byte(0x40|id&0x1F))
 		switch id {
 		case 0x90, 0x9D, 0x9E, 0x9F: // DCS, OSC, PM, APC + string (if any) + ST
-			if len(arg) > 0 {
+			if arg != nil {
 				p = append(append(p, arg...), '\x1b', '\\')
 			}
 		}
-- 
2.43.0


From 86d3b1c9fdb6f98bb5155e4faaf5759cbd876186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 41/78] fix: to24bit converts background colors

---
 cmd/to24bit/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index 1675951..f696bbf 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -92,7 +92,7 @@ func process(e ansi.Escape, a []byte) error {
 
 			// maybe convert background
 			if bg, hasBG := attr.BG(); hasBG {
-				if newc := bg.To24Bit(); newc != bg.To24Bit() {
+				if newc := bg.To24Bit(); newc != bg {
 					attr = attr.SansBG() | newc.BG()
 					needed = true
 				}
-- 
2.43.0


From be004bef61f88e52dca52a0d555e37186dd8d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 42/78] fix: to24bit keeps string controls, invalid bytes, and
 runes split between reads

---
 cmd/to24bit/main.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index f696bbf..557e908 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -52,15 +52,20 @@ func processMore(ateof bool) (err error) {
 		e, a, n := ansi.DecodeEscape(readBuf.Bytes())
 		readBuf.Next(n)
 		if e == 0 {
-			if readBuf.Len() == 0 {
-				break // nothing left to decode, e.g. after a cancelled sequence
+			if n > 0 {
+				continue // e.g. after a cancelled sequence
 			}
-			r, n := utf8.DecodeRune(readBuf.Bytes())
-			const esc = 0x1b
-			if r == esc && readBuf.Len() == 1 && !ateof {
-				break // readMore, try to complete escape sequence
+			p := readBuf.Bytes()
+			r, n := utf8.DecodeRune(p)
+			const esc, csi = 0x1b, 0x9b
+			if !ateof && (r == esc || r == csi || !utf8.FullRune(p)) {
+				break // readMore, try to complete escape sequence or rune
 			}
 			readBuf.Next(n)
+			if r == utf8.RuneError { // pass any invalid bytes through
+				_, err = outBuf.Write(p[:n])
+				continue
+			}
 			e = ansi.Escape(r)
 		}
 		err = process(e, a)
@@ -69,7 +74,7 @@ func processMore(ateof bool) (err error) {
 }
 
 func process(e ansi.Escape, a []byte) error {
-	if !e.IsEscape() {
+	if !e.IsEscape() && (e < 0x80 || 0x9F < e) { // C1 controls may have a string
 		_, err := outBuf.WriteRune(rune(e))
 		return err
 	}
-- 
2.43.0


From 7a6f573288e8a0727b5d3c0bf6f1e57a0e82e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 43/78] fix: decode does not fail at the end of its input

---
 cmd/decode/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 6e767d0..decebc6 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -77,6 +77,9 @@ func runBatch(in, out *os.File) (err error) {
 	if buf.Len() > 0 {
 		log.Printf("undecoded trailer content: %q", buf.Bytes())
 	}
+	if err == io.EOF {
+		err = nil
+	}
 	return err
 }
 
-- 
2.43.0


From bf05ea285bc955a428ea5ed3af498d5c9dc4f46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 44/78] fix: decode waits for the rest of an incomplete rune or
 escape sequence in its input

---
 cmd/decode/main.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index decebc6..2076bae 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -101,17 +101,16 @@ func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
 			buf.Next(n)
 		}
 		if e == 0 {
-			if buf.Len() == 0 {
-				break // nothing left to decode, e.g. after a cancelled sequence
+			if n > 0 {
+				continue // e.g. after a cancelled sequence
 			}
 			r, n := utf8.DecodeRune(buf.Bytes())
 			switch r {
-			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
+			case 0x1B, 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // ESC, DCS, CSI, OSC, PM, APC
+				return
+			}
+			if !utf8.FullRune(buf.Bytes()) {
 				return
-			case 0x1B: // ESC
-				if p := buf.Bytes(); len(p) == cap(p) {
-					return
-				}
 			}
 			buf.Next(n)
 			_, err = writeRune(r)
-- 
2.43.0


From 5da88015e28b58257ab87f2c6464048a53065409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 45/78] fix: the closest palette color is not missed for being
 off by one

sqDiff dropped the low bits of each squared difference (as image/color must for
16-bit components), so that a color off by one in a component counted as equal.
---
 ansi/colors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index d2b8796..3ed246a 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -718,8 +718,8 @@ func (p Palette) Index(c SGRColor) int {
 	return ret
 }
 
-// sqDiff borrowed from image/color
+// sqDiff borrowed from image/color; 8-bit components do not need its shift.
 func sqDiff(x, y uint8) uint32 {
 	d := uint32(x) - uint32(y)
-	return (d * d) >> 2
+	return d * d
 }
-- 
2.43.0


From e6fb56c5e0b8b7b026751ead63abcb53b973ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 46/78] fix: events keep their own copies of arguments, which
 decoded input does not

---
 x/platform/event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/event.go b/x/platform/event.go
index 3739191..4c00aa9 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -228,6 +228,6 @@ func (es *Events) add(e ansi.Escape, a []byte) {
 
 	es.Type = append(es.Type, kind)
 	es.esc = append(es.esc, e)
-	es.arg = append(es.arg, a)
+	es.arg = append(es.arg, append([]byte(nil), a...)) // a is only valid until more is read
 	es.mouse = append(es.mouse, m)
 }
-- 
2.43.0


From db87b996050ec892042b98e5f3acbbeb188ac8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 47/78] fix: an event is counted once for runes given twice

---
 x/platform/event.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/platform/event.go b/x/platform/event.go
index 4c00aa9..1fceefa 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -79,6 +79,7 @@ func (es *Events) CountRune(rs ...rune) (n int) {
 			if es.esc[i] == ansi.Escape(r) {
 				es.Type[i] = EventNone
 				n++
+				break
 			}
 		}
 	}
-- 
2.43.0


From 06925673152b2e59689e00be325f8250821751e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 48/78] fix: delete in the middle of an edit line removes the
 rune before the cursor

---
 x/platform/editline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index e87a76c..8954224 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -179,7 +179,7 @@ func (edl *EditLine) handleControlRune(ctx *Context, eid int) {
 		if edl.Cur > 0 {
 			if edl.Cur < utf8.RuneCount(edl.Buf) {
 				in := edl.Buf
-				for j := 0; j < edl.Cur; j++ {
+				for j := 0; j < edl.Cur-1; j++ {
 					_, n := utf8.DecodeRune(in)
 					in = in[n:]
 				}
-- 
2.43.0


From 8cb49d9d7e6fdb76054d50af0d828463d020ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 49/78] fix: an edit line takes no input beyond that which
 submits or cancels it

---
 x/platform/editline.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 8954224..9686872 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -57,11 +57,9 @@ func (edl *EditLine) Update(ctx *Context) {
 		edl.handleEvent = defaultBehavior
 	}
 	for eid := range ctx.Input.Type {
-		edl.handleEvent(edl, ctx, eid)
-	}
-
-	if edl.State != EditLineReady {
-		return
+		if edl.handleEvent(edl, ctx, eid); edl.State != EditLineReady {
+			return
+		}
 	}
 
 	// TODO clamp to box, showing cursor
-- 
2.43.0


From 4433c6ea0e362327c46f13f9067cc4025813dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 50/78] fix: an edit line does not blank an unrelated cell
 above or below its cursor

---
 x/platform/editline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 9686872..9ce8848 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -110,7 +110,7 @@ func (edl *EditLine) Update(ctx *Context) {
 
 	ctx.Output.UserCursor.Visible = true
 	ctx.Output.UserCursor.Point = ansi.Pt(edl.Box.Min.X+edl.Cur-edl.View, edl.Box.Min.Y)
-	if ctx.Output.Cursor.X == ctx.Output.UserCursor.X {
+	if ctx.Output.Cursor.Point == ctx.Output.UserCursor.Point {
 		ctx.Output.WriteRune(' ')
 	}
 
-- 
2.43.0


From 572d4fb53f2b7a3e3bcb5165eb46137352cb17ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 51/78] fix: a frame sees only the input that arrived since the
 last one

---
 x/platform/platform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index d8e1cac..d9def07 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -193,6 +193,7 @@ func (p *Platform) Run(client Client) (err error) {
 			return err
 		}
 
+		p.events.Clear()
 		ctx := p.Context()
 
 		// poll for signals
@@ -203,7 +204,6 @@ func (p *Platform) Run(client Client) (err error) {
 			case <-p.resize.C:
 				ctx.Err = errOr(ctx.Err, p.screen.SizeToTerm(p.term))
 			case <-p.sigio.C:
-				p.events.Clear()
 				n, err := p.term.ReadAny()
 				if n > 0 {
 					p.events.DecodeInput(&p.term.Input)
-- 
2.43.0


From 60dc9b417f26df3c66d2759e8bdfb62422165060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 52/78] fix: Input.Notify with the same channel again keeps its
 notification

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 8e34a66..337add8 100644
--- a/input.go
+++ b/input.go
@@ -97,7 +97,7 @@ func (in *Input) Notify(sigio chan os.Signal) error {
 	if sigio != nil {
 		signal.Notify(in.sigio, syscall.SIGIO)
 	}
-	if prior != nil {
+	if prior != nil && prior != sigio {
 		signal.Stop(prior)
 	}
 	return in.setAsync(sigio != nil)
-- 
2.43.0


From 833d1d7b280a79a64bfb904dde3117e6e3096386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 53/78] fix: the platform restores its input's flags as they
 were before it

---
 x/platform/platform.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index d9def07..926f150 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -45,13 +45,9 @@ func New(in, out *os.File, opts ...Option) (*Platform, error) {
 		&p.Config,
 		&p.ticker,
 		&p.bg,
+		&p.sigio,
 	)
 
-	p.sigio.C = make(chan os.Signal, 1)
-	if err := p.term.Notify(p.sigio.C); err != nil {
-		return nil, err
-	}
-
 	_ = p.term.SetRaw(true)
 	p.term.AddMode(
 		ansi.ModeAlternateScreen,
@@ -103,7 +99,7 @@ type Platform struct {
 	term   *anansi.Term
 	stop   anansi.Signal
 	resize anansi.Signal
-	sigio  anansi.Signal
+	sigio  anansi.InputSignal
 	buf    anansi.Buffer
 	events Events
 	ticker Ticker
-- 
2.43.0


From cac15e5d62b46bd75fc0528358389084315faa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 54/78] fix: Suspend does not miss a SIGCONT delivered before
 it waits

---
 term.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.go b/term.go
index 13481b8..f550f6b 100644
--- a/term.go
+++ b/term.go
@@ -174,7 +174,7 @@ func (term *Term) Suspend() error {
 		return term.RunWithout((*Term).Suspend)
 	}
 
-	cont := make(chan os.Signal)
+	cont := make(chan os.Signal, 1)
 	signal.Notify(cont, syscall.SIGCONT)
 	defer signal.Stop(cont)
 	log.Printf("suspending")
-- 
2.43.0


From 0fc583886cf7ea81321225916afea59bb9a27220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 55/78] fix: a background worker that is stopped while busy
 ends, and Stop returns

---
 x/platform/diag.go | 21 +++++++++++----------
 x/platform/log.go  | 10 +++++-----
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/x/platform/diag.go b/x/platform/diag.go
index ff16794..470f65d 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -356,20 +356,22 @@ func (coll *telemetryCollector) Start() error {
 	if err := coll.bgWorkerCore.Start(); err != nil {
 		return err
 	}
-	go coll.worker()
+	go coll.worker(coll.w, coll.e)
 	coll.buf.Grow(64 * 1024)
 	return nil
 }
 
-func (coll *telemetryCollector) worker() {
-	defer close(coll.e)
+func (coll *telemetryCollector) worker(w <-chan struct{}, e chan<- error) {
+	defer close(e)
 	for open := true; open; {
-		_, open = <-coll.w
-		coll.logData()
+		_, open = <-w
+		if err := coll.logData(); err != nil {
+			e <- err
+		}
 	}
 }
 
-func (coll *telemetryCollector) logData() {
+func (coll *telemetryCollector) logData() error {
 	coll.Lock()
 	defer coll.Unlock()
 
@@ -425,10 +427,8 @@ func (coll *telemetryCollector) logData() {
 			coll.stalls = nil
 		}
 
-		if _, err := coll.buf.WriteTo(coll.f); err != nil {
-			coll.e <- err
-		}
-		return
+		_, err := coll.buf.WriteTo(coll.f)
+		return err
 	}
 
 	if coll.timing != nil {
@@ -439,6 +439,7 @@ func (coll *telemetryCollector) logData() {
 		log.Printf("output stalls %v", coll.stalls)
 		coll.stalls = nil
 	}
+	return nil
 }
 
 func appendDurationsTo(buf *bytes.Buffer, ds []time.Duration) {
diff --git a/x/platform/log.go b/x/platform/log.go
index 5aaf33e..81d20f9 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -89,7 +89,7 @@ func (logs *LogSink) Start() error {
 	err := logs.bgWorkerCore.Start()
 	if err == nil {
 		logs.direct = false
-		go logs.flushWorker()
+		go logs.flushWorker(logs.w, logs.e)
 	}
 	return err
 }
@@ -105,15 +105,15 @@ func (logs *LogSink) Stop() error {
 	return err
 }
 
-func (logs *LogSink) flushWorker() {
-	defer close(logs.e)
+func (logs *LogSink) flushWorker(w <-chan struct{}, e chan<- error) {
+	defer close(e)
 	for open := true; open; {
-		_, open = <-logs.w
+		_, open = <-w
 		if logs.f == nil {
 			break
 		}
 		if err := logs.flush(); err != nil {
-			logs.e <- err
+			e <- err
 		}
 	}
 }
-- 
2.43.0


From 033871ad2d4f6f246acaef779178feecd0a96643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 56/78] fix: a background worker's errors never block it, and
 Stop waits for its end

---
 x/platform/bg.go   | 15 ++++++++++++++-
 x/platform/diag.go |  2 +-
 x/platform/log.go  |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/x/platform/bg.go b/x/platform/bg.go
index 28f4d68..c313330 100644
--- a/x/platform/bg.go
+++ b/x/platform/bg.go
@@ -79,7 +79,20 @@ func (core *bgWorkerCore) Stop() error {
 	if core.e == nil {
 		return nil
 	}
-	return <-core.e
+	var err error
+	for werr := range core.e {
+		err = errOr(err, werr)
+	}
+	core.e = nil
+	return err
+}
+
+// sendErr reports a background error, unless one is pending already.
+func sendErr(e chan<- error, err error) {
+	select {
+	case e <- err:
+	default:
+	}
 }
 
 func (core *bgWorkerCore) Error() error {
diff --git a/x/platform/diag.go b/x/platform/diag.go
index 470f65d..0af8877 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -366,7 +366,7 @@ func (coll *telemetryCollector) worker(w <-chan struct{}, e chan<- error) {
 	for open := true; open; {
 		_, open = <-w
 		if err := coll.logData(); err != nil {
-			e <- err
+			sendErr(e, err)
 		}
 	}
 }
diff --git a/x/platform/log.go b/x/platform/log.go
index 81d20f9..07b5cc9 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -97,7 +97,7 @@ func (logs *LogSink) Start() error {
 // Stop the any background file-writing goroutine, transitioning back to direct
 // file writes.
 func (logs *LogSink) Stop() error {
-	if logs.f == nil || logs.w == nil {
+	if logs.e == nil {
 		return nil
 	}
 	err := logs.bgWorkerCore.Stop()
@@ -113,7 +113,7 @@ func (logs *LogSink) flushWorker(w <-chan struct{}, e chan<- error) {
 			break
 		}
 		if err := logs.flush(); err != nil {
-			e <- err
+			sendErr(e, err)
 		}
 	}
 }
-- 
2.43.0


From b5fa84a45009b5c98b852852bb54978e804039b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 57/78] fix: logging to a file does not race with its
 background writing

---
 x/platform/log.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index 07b5cc9..803ca0a 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -28,13 +28,17 @@ type LogSink struct {
 	f    *os.File
 }
 
-// Contents all in-memory buffered bytes and a slice containing the index of
+// Contents returns a copy of all in-memory buffered bytes and a slice containing the index of
 // all newlines within those bytes.
 func (logs *LogSink) Contents() ([]byte, []int) {
-	return logs.buf.Bytes(), logs.bufEOLs
+	logs.Lock()
+	defer logs.Unlock()
+	return append([]byte(nil), logs.buf.Bytes()...), append([]int(nil), logs.bufEOLs...)
 }
 
 func (logs *LogSink) Read(p []byte) (n int, err error) {
+	logs.Lock()
+	defer logs.Unlock()
 	n, err = logs.buf.Read(p)
 	i := 0
 	for ; i < len(logs.bufEOLs) && n > logs.bufEOLs[i]; i++ {
@@ -50,6 +54,8 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 	if len(p) == 0 {
 		return 0, nil
 	}
+	logs.Lock()
+	defer logs.Unlock()
 	if logs.f != nil {
 		if logs.direct {
 			if n, err := logs.f.Write(p); err != nil {
@@ -88,7 +94,9 @@ func (logs *LogSink) Start() error {
 	}
 	err := logs.bgWorkerCore.Start()
 	if err == nil {
+		logs.Lock()
 		logs.direct = false
+		logs.Unlock()
 		go logs.flushWorker(logs.w, logs.e)
 	}
 	return err
@@ -101,24 +109,30 @@ func (logs *LogSink) Stop() error {
 		return nil
 	}
 	err := logs.bgWorkerCore.Stop()
+	logs.Lock()
+	defer logs.Unlock()
 	logs.direct = true
-	return err
+	return errOr(err, logs.flush())
 }
 
 func (logs *LogSink) flushWorker(w <-chan struct{}, e chan<- error) {
 	defer close(e)
 	for open := true; open; {
 		_, open = <-w
-		if logs.f == nil {
-			break
-		}
-		if err := logs.flush(); err != nil {
+		logs.Lock()
+		err := logs.flush()
+		logs.Unlock()
+		if err != nil {
 			sendErr(e, err)
 		}
 	}
 }
 
+// flush must be called with logs locked.
 func (logs *LogSink) flush() error {
+	if logs.f == nil {
+		return nil
+	}
 	_, err := logs.fbuf.WriteTo(logs.f)
 	return err
 }
-- 
2.43.0


From 15cf6ff818ad6d0ddf09b6a6865ae92b4f3d3917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 58/78] fix: changing the log file ends the writing to the
 prior one

---
 x/platform/log.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index 803ca0a..bc09aea 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -144,19 +144,28 @@ func (logs *LogSink) SetFile(f *os.File) error {
 		return nil
 	}
 	if logs.f != nil {
-		if err := logs.f.Close(); err != nil {
-			return fmt.Errorf("failed to close log file %q: %v", logs.f.Name(), err)
+		err := logs.Stop()
+		if cerr := logs.f.Close(); err == nil {
+			err = cerr
+		}
+		name := logs.f.Name()
+		logs.setFile(nil)
+		if err != nil {
+			return fmt.Errorf("failed to close log file %q: %v", name, err)
 		}
 	}
-	if f != nil {
-		log.Printf("logging to %q", f.Name())
-		logs.f = f
-		return logs.Start()
-	}
-	if logs.f != nil {
+	if f == nil {
 		log.Printf("disabling log file output")
-		logs.f = nil
-		return logs.Stop()
+		return nil
 	}
-	return nil
+	log.Printf("logging to %q", f.Name())
+	logs.setFile(f)
+	return logs.Start()
+}
+
+func (logs *LogSink) setFile(f *os.File) {
+	logs.Lock()
+	defer logs.Unlock()
+	logs.f = f
+	logs.fbuf.Reset()
 }
-- 
2.43.0


From 8de41d5eb2427ca5ad46052130cc4b0736f4b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 59/78] fix: telemetry keeps its own copy of the data to be
 logged

---
 x/platform/diag.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/platform/diag.go b/x/platform/diag.go
index 0af8877..3d7cbda 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -216,11 +216,11 @@ func (tel *Telemetry) update(p *Platform) error {
 		timingFrame := tel.Timing.update(p)
 		consumeStalls := timingFrame
 		if tel.LogTiming && timingFrame {
-			tel.coll.timing = tel.Timing.ds
+			tel.coll.timing = append([]time.Duration{}, tel.Timing.ds...)
 		}
 		if stalls := p.term.Stalls(consumeStalls); stalls != nil {
 			if tel.LogStallData {
-				tel.coll.stalls = stalls
+				tel.coll.stalls = append([]time.Duration{}, stalls...)
 			}
 			if tel.StallDataEnabled {
 				tel.Stalls.update(p, stalls)
@@ -356,8 +356,8 @@ func (coll *telemetryCollector) Start() error {
 	if err := coll.bgWorkerCore.Start(); err != nil {
 		return err
 	}
-	go coll.worker(coll.w, coll.e)
 	coll.buf.Grow(64 * 1024)
+	go coll.worker(coll.w, coll.e)
 	return nil
 }
 
-- 
2.43.0


From 97b654d4862a51820f2e8a3820b625da4055528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 60/78] fix: writing to the log after an unfinished line does
 not panic

An end of line that was implied at the end of the buffer is beyond its last
byte. Nor does one remain once all has been read.
---
 x/platform/log.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index bc09aea..594ce7f 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -41,7 +41,7 @@ func (logs *LogSink) Read(p []byte) (n int, err error) {
 	defer logs.Unlock()
 	n, err = logs.buf.Read(p)
 	i := 0
-	for ; i < len(logs.bufEOLs) && n > logs.bufEOLs[i]; i++ {
+	for ; i < len(logs.bufEOLs) && (n > logs.bufEOLs[i] || logs.buf.Len() == 0); i++ {
 	}
 	logs.bufEOLs = logs.bufEOLs[:copy(logs.bufEOLs, logs.bufEOLs[i:])]
 	for i = 0; i < len(logs.bufEOLs); i++ {
@@ -68,7 +68,7 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 
 	b := logs.buf.Bytes()
 	// unwind any implicit EOL-at-EOF
-	if i := len(logs.bufEOLs) - 1; i >= 0 && b[logs.bufEOLs[i]] != '\n' {
+	if i := len(logs.bufEOLs) - 1; i >= 0 && logs.bufEOLs[i] == len(b) {
 		logs.bufEOLs = logs.bufEOLs[:i]
 	}
 	for off := 0; off < len(p); off++ {
-- 
2.43.0


From 1abc11b55a2644449064f837cb0ac3bb1ac790ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 61/78] fix: waiting on a ticker that isn't active returns the
 zero time

As documented; otherwise a platform whose suspension has failed would wait for
ever on its next frame.
---
 x/platform/tick.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/x/platform/tick.go b/x/platform/tick.go
index 2bee957..5aea2df 100644
--- a/x/platform/tick.go
+++ b/x/platform/tick.go
@@ -43,12 +43,11 @@ func (ct *Ticker) Exit(term *anansi.Term) error {
 // Wait blocks for the next ticker time, returning zero time if the Ticker
 // isn't active, or is Exit-ed first.
 func (ct *Ticker) Wait() time.Time {
-	var tc <-chan time.Time
-	if ct.t != nil {
-		tc = ct.t.C
+	if ct.t == nil {
+		return time.Time{}
 	}
 	select {
-	case t := <-tc:
+	case t := <-ct.t.C:
 		return t
 	case <-ct.c:
 	}
-- 
2.43.0


From 258cf160fcbdb8af42c7c459e217798d7a807e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 62/78] fix: a replay does not hide stop signals and failed
 reads

The error of the frame so far was overwritten by what the replay ended with.
---
 x/platform/replay.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 95a0854..1553da4 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -36,7 +36,7 @@ type replay struct {
 
 func (rep *replay) update(ctx *Context) {
 	if len(rep.cur) == 0 {
-		ctx.Err = errReplayDone
+		ctx.Err = errOr(ctx.Err, errReplayDone)
 		return
 	}
 
@@ -86,7 +86,7 @@ func (rep *replay) update(ctx *Context) {
 			}
 		}
 		if rep.frame.T.IsZero() {
-			ctx.Err = errReplayDone
+			ctx.Err = errOr(ctx.Err, errReplayDone)
 			return
 		}
 
@@ -105,7 +105,7 @@ func (rep *replay) update(ctx *Context) {
 		}
 	}
 
-	ctx.Err = rep.runClient(ctx)
+	ctx.Err = errOr(ctx.Err, rep.runClient(ctx))
 }
 
 func (rep *replay) runClient(ctx *Context) error {
-- 
2.43.0


From 506b992634359df0fa6c0b2fde4a89bdae79660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 63/78] fix: a replay can be stopped in the frame that ends it

---
 x/platform/replay.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 1553da4..254cd7c 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -35,11 +35,6 @@ type replay struct {
 }
 
 func (rep *replay) update(ctx *Context) {
-	if len(rep.cur) == 0 {
-		ctx.Err = errOr(ctx.Err, errReplayDone)
-		return
-	}
-
 	// Ctrl-C stops replay
 	if ctx.Input.HasTerminal('\x03') {
 		log.Printf("stopping replay")
@@ -47,6 +42,11 @@ func (rep *replay) update(ctx *Context) {
 		return
 	}
 
+	if len(rep.cur) == 0 {
+		ctx.Err = errOr(ctx.Err, errReplayDone)
+		return
+	}
+
 	defer func() {
 		if ctx.Err == nil {
 			rep.drawOverlay(ctx)
-- 
2.43.0


From 7f3e53af0731807e31d9c2c249a6777da7d49e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 64/78] fix: once a replay is stopped the screen is of the
 terminal's size again

---
 x/platform/platform.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 926f150..e662679 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -266,7 +266,9 @@ func (ctx *Context) Update() {
 		if ctx.replay.update(ctx); ctx.replay != nil || ctx.Err != nil {
 			return
 		}
-		// replay erased itself
+		// replay erased itself, but may have resized the output
+		ctx.Redraw = true
+		ctx.Output.Invalidate()
 	}
 
 	if ctx.Redraw {
-- 
2.43.0


From 2cf237372f99ccbda29b4553aded7ac12feb2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 65/78] fix: a session's recording includes changes of the
 terminal's size

Replays stayed on a screen of the size at the start of the recording.
---
 x/platform/platform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index e662679..7bbeffe 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -273,6 +273,7 @@ func (ctx *Context) Update() {
 
 	if ctx.Redraw {
 		ctx.Err = errOr(ctx.Err, ctx.Output.SizeToTerm(ctx.term))
+		ctx.Err = errOr(ctx.Err, ctx.recordSize())
 	}
 
 	// recording / replaying toggle on Ctrl-R
-- 
2.43.0


From 01ca7e186e36f9351573c00970489a4f018e85f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 66/78] fix: log a failure to create the file of a recording

---
 x/platform/replay.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 254cd7c..43640ad 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -160,7 +160,9 @@ func (p *Platform) setRecording(f *os.File, err error) {
 		}
 		p.recording = nil
 	}
-	if f != nil {
+	if f == nil && err != nil {
+		log.Printf("failed to create record file: %v", err)
+	} else if f != nil {
 		sw := sizedWriter{ws: f}
 		if err == nil {
 			err = p.writeState(&sw)
-- 
2.43.0


From e4e32f81605c4dfee984d7e078b4760ff011fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 67/78] fix: capabilities a terminfo entry does not have read
 as empty

---
 terminfo/read.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/terminfo/read.go b/terminfo/read.go
index 0b20719..ef4d9f4 100644
--- a/terminfo/read.go
+++ b/terminfo/read.go
@@ -92,8 +92,15 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	strOffset := headerLength + uint16(header[1]+header[2]+2*header[3])
 	tableOffset := strOffset + 2*uint16(header[4])
 
+	readCap := func(i uint16) (string, error) {
+		if i >= uint16(header[4]) {
+			return "", nil // past the end of those the entry has
+		}
+		return readTableString(rs, strOffset+2*i, tableOffset)
+	}
+
 	for i := 1; i < len(tiKeys); i++ {
-		key, err := readTableString(rs, strOffset+2*tiKeys[i], tableOffset)
+		key, err := readCap(tiKeys[i])
 		if err != nil {
 			return err
 		}
@@ -101,7 +108,7 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	}
 
 	for i := 1; i < len(tiFuncs); i++ {
-		fnc, err := readTableString(rs, strOffset+2*tiFuncs[i], tableOffset)
+		fnc, err := readCap(tiFuncs[i])
 		if err != nil {
 			return err
 		}
@@ -119,6 +126,9 @@ func readTableString(rs io.ReadSeeker, off, table uint16) (s string, err error)
 	if err != nil {
 		return "", err
 	}
+	if index >= 0xfffe {
+		return "", nil // absent or cancelled
+	}
 	if _, err := rs.Seek(int64(table+index), 0); err != nil {
 		return "", err
 	}
-- 
2.43.0


From e4f3a3ad42dd761d2ff4e353679b8f9b1f37c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 68/78] fix: loading the empty terminal name is an error

---
 terminfo/terminfo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terminfo/terminfo.go b/terminfo/terminfo.go
index df62ccc..38dce77 100644
--- a/terminfo/terminfo.go
+++ b/terminfo/terminfo.go
@@ -139,6 +139,9 @@ func Load(term string) (*Terminfo, error) {
 	if ti, def := cache[term]; def {
 		return ti, nil
 	}
+	if term == "" {
+		return GetBuiltin(term)
+	}
 	paths := SearchPath()
 	for _, path := range paths {
 		for _, fp := range []string{
-- 
2.43.0


From f111ae7a700239c192956b5563b1030780c3ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 69/78] fix: a terminfo file that cannot be read falls back to
 other ones and builtins

---
 terminfo/terminfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminfo/terminfo.go b/terminfo/terminfo.go
index 38dce77..664a54b 100644
--- a/terminfo/terminfo.go
+++ b/terminfo/terminfo.go
@@ -158,8 +158,8 @@ func Load(term string) (*Terminfo, error) {
 				}
 				if err == nil {
 					cache[term] = &ti
+					return &ti, nil
 				}
-				return &ti, err
 			}
 		}
 	}
-- 
2.43.0


From 1d9d0cb79867250ff4014a2051eae44f3a98a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 70/78] fix: timing that is configured is measured and logged

The timing flag and StartTiming had no effect, and logging was switched on in
the configuration, not where it is looked for.
---
 x/platform/config.go | 6 +++++-
 x/platform/diag.go   | 2 +-
 x/platform/hud.go    | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index d715f5b..2a248cd 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -74,6 +74,9 @@ func (cfg *Config) Merge(other Config) {
 	if other.MemProfileName != "" && cfg.MemProfileName == "" {
 		cfg.MemProfileName = other.MemProfileName
 	}
+	if other.StartTiming {
+		cfg.StartTiming = true
+	}
 	if other.LogTiming {
 		cfg.LogTiming = true
 	}
@@ -83,7 +86,8 @@ func (cfg *Config) Merge(other Config) {
 }
 
 func (cfg *Config) setup(p *Platform) error {
-	p.SetTimingEnabled(cfg.LogTiming)
+	p.Telemetry.LogTiming = cfg.LogTiming
+	p.SetTimingEnabled(cfg.StartTiming || cfg.LogTiming)
 
 	if cfg.TelemetryLogFileName != "" {
 		if err := p.Telemetry.coll.create(cfg.TelemetryLogFileName); err != nil {
diff --git a/x/platform/diag.go b/x/platform/diag.go
index 3d7cbda..e808a79 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -170,7 +170,7 @@ func (tel *Telemetry) FPS() float64 {
 func (p *Platform) SetTimingEnabled(enabled bool) {
 	if p.TimingEnabled != enabled {
 		p.TimingEnabled = enabled
-		if !p.TimingEnabled && !p.LogTiming {
+		if !p.TimingEnabled && !p.Telemetry.LogTiming {
 			p.Timing.reset()
 		}
 	}
diff --git a/x/platform/hud.go b/x/platform/hud.go
index 3fe3570..1ed1c66 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -386,7 +386,7 @@ func (hud *HUD) drawFPSDetail(ctx *Context) {
 func (hud *HUD) drawTelemetry(ctx *Context) {
 	hud.detailHeader(ctx, "# Telemetry:")
 	hud.drawFileEditRow(ctx, &ctx.Telemetry.coll, "Go Log")
-	hud.drawToggleRow(ctx, "Log Timing", &ctx.LogTiming)
+	hud.drawToggleRow(ctx, "Log Timing", &ctx.Telemetry.LogTiming)
 	hud.drawToggleRow(ctx, "Log Stalls", &ctx.Telemetry.LogStallData)
 }
 
-- 
2.43.0


From 2633e1d91c8416b536fc1bec3b9c39b8fec24ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 71/78] fix: adding flags keeps the timing that was configured

---
 x/platform/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index 2a248cd..54a208e 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -48,9 +48,9 @@ func (cfg *Config) AddFlags(f *flag.FlagSet, prefix string) {
 	f.StringVar(&cfg.TraceFileName, prefix+"tracefile", cfg.TraceFileName,
 		"enables platform execution tracing")
 	if prefix != "" {
-		f.BoolVar(&cfg.StartTiming, prefix+"timing", false,
+		f.BoolVar(&cfg.StartTiming, prefix+"timing", cfg.StartTiming,
 			"measure timing from the beginning")
-		f.BoolVar(&cfg.LogTiming, prefix+"timing.log", false,
+		f.BoolVar(&cfg.LogTiming, prefix+"timing.log", cfg.LogTiming,
 			"measure and log timing from the beginning")
 	}
 }
-- 
2.43.0


From 67b20ecdfba724ec6b2479be4dca09706c3ee617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 72/78] fix: measuring timing at frame rates under 4

---
 x/platform/options.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/options.go b/x/platform/options.go
index e0794ce..98caa8b 100644
--- a/x/platform/options.go
+++ b/x/platform/options.go
@@ -17,6 +17,9 @@ func (f optionFunc) apply(p *Platform) error { return f(p) }
 func FrameRate(fps int) Option {
 	return optionFunc(func(p *Platform) error {
 		timingPeriod := fps / 4
+		if timingPeriod < 1 {
+			timingPeriod = 1
+		}
 		p.ticker.d = time.Second / time.Duration(fps)
 		p.FPSEstimate.data = make([]float64, fps)
 		p.Timing.ts = make([]time.Time, timingPeriod)
-- 
2.43.0


From c0b612aa474576025f576fb39e8939d371bcba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 73/78] fix: a profile that could not be flushed can be started
 again

---
 x/platform/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index 54a208e..9404c01 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -321,10 +321,10 @@ func (cpu *cpuProfileContext) stop() error {
 		return nil
 	}
 	pprof.StopCPUProfile()
+	cpu.active = false
 	if err := cpu.f.Sync(); err != nil {
 		return err
 	}
-	cpu.active = false
 	log.Printf("Flushed CPU profiling to %q", cpu.f.Name())
 	return nil
 }
@@ -360,10 +360,10 @@ func (trc *traceProfileContext) stop() (err error) {
 		return nil
 	}
 	trace.Stop()
+	trc.active = false
 	if err := trc.f.Sync(); err != nil {
 		return err
 	}
-	trc.active = false
 	log.Printf("Flushed execution trace execution to %q", trc.f.Name())
 	return nil
 }
-- 
2.43.0


From c8da8fcaf515334dab96a3f46b0281ce08b15d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 74/78] fix: the overlay on terminals it is wider than

Showing the overlay on a terminal of less than 43 columns panicked, and its
buttons looped for ever where they reach past the last column.
---
 x/platform/hud.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 1ed1c66..3e76651 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -176,13 +176,27 @@ func (hud *HUD) updateProfilers(p *Platform) {
 	}
 }
 
+// clampPt returns the valid point nearest to x,y.
+func clampPt(x, y int) ansi.Point {
+	if x < 1 {
+		x = 1
+	}
+	if y < 1 {
+		y = 1
+	}
+	return ansi.Pt(x, y)
+}
+
 func (hud *HUD) calcKVBox(ctx *Context, key string) (kbox, vbox ansi.Rectangle) {
 	outBounds := ctx.Output.Bounds()
 	n := utf8.RuneCountInString(key)
-	kbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth-n-1, ctx.Output.Cursor.Y)
-	vbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth, ctx.Output.Cursor.Y)
+	kbox.Min = clampPt(outBounds.Max.X-hud.detailWidth-n-1, ctx.Output.Cursor.Y)
+	vbox.Min = clampPt(outBounds.Max.X-hud.detailWidth, ctx.Output.Cursor.Y)
 	kbox.Max = ansi.Pt(kbox.Min.X+n, ctx.Output.Cursor.Y+1)
 	vbox.Max = ansi.Pt(vbox.Min.X+hud.detailWidth, ctx.Output.Cursor.Y+1)
+	if vbox.Max.X > outBounds.Max.X {
+		vbox.Max.X = outBounds.Max.X
+	}
 	return kbox, vbox
 }
 
@@ -204,7 +218,7 @@ func (hud *HUD) detailRow(ctx *Context, key string, val string) (box ansi.Rectan
 	box.Min = kbox.Min
 	box.Max = vbox.Max
 	n := utf8.RuneCountInString(key) + 2 + hud.detailWidth
-	ctx.Output.To(ansi.Pt(ctx.Output.Cursor.X-n+1, ctx.Output.Cursor.Y))
+	ctx.Output.To(clampPt(ctx.Output.Cursor.X-n+1, ctx.Output.Cursor.Y))
 	ctx.Output.WriteString(key)
 	ctx.Output.WriteRune(' ')
 	for i := utf8.RuneCountInString(val); i < hud.detailWidth; i++ {
@@ -221,8 +235,8 @@ func (hud *HUD) rightSegment(ctx *Context, s string) (box ansi.Rectangle) {
 	if box.Min.X+1 < outBounds.Max.X {
 		box.Min.X--
 	}
-	box.Max = ansi.Pt(box.Min.X, box.Min.Y+1)
-	box.Min.X -= utf8.RuneCountInString(s)
+	box.Max = clampPt(box.Min.X, box.Min.Y+1)
+	box.Min = clampPt(box.Min.X-utf8.RuneCountInString(s), box.Min.Y)
 	ctx.Output.To(box.Min)
 	ctx.Output.WriteString(s)
 	ctx.Output.To(box.Min)
@@ -343,7 +357,9 @@ func (hud *HUD) drawPProfSelector(ctx *Context) {
 					hud.ButtonAttr, hud.SelectAttr,
 					func(ctx *Context, _ bool) {
 						ctx.Output.WriteString(prof.Name())
-						ctx.Output.WriteString(strings.Repeat(" ", outBounds.Max.X-1-ctx.Output.Cursor.X))
+						if n := outBounds.Max.X - 1 - ctx.Output.Cursor.X; n > 0 {
+							ctx.Output.WriteString(strings.Repeat(" ", n))
+						}
 					})
 				ctx.Output.To(ansi.Pt(box.Min.X, ctx.Output.Cursor.Y+1))
 				box.Max.Y = ctx.Output.Cursor.Y
@@ -356,8 +372,7 @@ func (hud *HUD) drawPProfSelector(ctx *Context) {
 				m := ctx.Input.Mouse(eid)
 				sid, pressed := m.State.IsPress()
 				if pressed && sid == 1 {
-					if m.Point.In(box) {
-						rel := m.Point.Diff(box.Min)
+					if rel := m.Point.Diff(box.Min); m.Point.In(box) && rel.Y < len(pprofs) {
 						ctx.Platform.pprofProfiles = append(ctx.Platform.pprofProfiles, pprofProfileContext{
 							profile: pprofs[rel.Y],
 							debug:   1,
-- 
2.43.0


From 1aab89670fd0fd13287b1ca1ba8e5c1057ce203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 75/78] fix: the log view shows each line in a row of its own

With less than 13 lines, or less rows than it has lines, the last lines were
shown in the same row, and a click on its header did not collapse it.
---
 x/platform/hud.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 3e76651..4537c49 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -626,6 +626,18 @@ func (lv *LogView) Update(ctx *Context) error {
 		viewLines = 10
 		lv.ViewLines = viewLines
 	}
+
+	content, eolOffsets := lv.logs.Contents()
+	lines := len(eolOffsets)
+	if lines <= 0 {
+		return nil
+	}
+	if viewLines > lines {
+		viewLines = lines
+	}
+	if rows := outBounds.Dy() - 1; viewLines > rows {
+		viewLines = rows
+	}
 	height := viewLines
 
 	topLeft := ansi.Pt(1, outBounds.Max.Y-1)
@@ -653,14 +665,6 @@ func (lv *LogView) Update(ctx *Context) error {
 	bounds := ansi.Rectangle{Min: topLeft, Max: outBounds.Max}
 	bounds.Max = bounds.Max.Add(image.Pt(0, 1)) // TODO ideally utilize the final column too
 
-	content, eolOffsets := lv.logs.Contents()
-	lines := len(eolOffsets)
-	if lines <= 0 {
-		return nil
-	}
-	if diff := bounds.Dy() - lines + 1; diff > 0 {
-		bounds.Min.Y += diff
-	}
 	if delta := ctx.Input.TotalScrollIn(bounds); delta != 0 {
 		lv.scrollBy(lines, delta)
 	}
-- 
2.43.0


From 11b9ce7b5d89920c6a44d302b22293b5b20b2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:07 +0000
Subject: [PATCH 76/78] fix: a log view state from a longer log

The line that is shown is part of recordings; replaying one panicked while the
log had fewer lines than when it was recorded.
---
 x/platform/hud.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 4537c49..0ae0708 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -703,6 +703,9 @@ func (lv *LogView) scrollBy(lines, delta int) {
 }
 
 func (lv *LogView) viewWindow(lines, viewLines int) (int, int) {
+	if lv.Line > lines {
+		lv.Line = 0
+	}
 	if lv.Line == 0 {
 		if start := lines - viewLines + 1; start > 0 {
 			return start, lines
-- 
2.43.0


From 8de9290eb7ca08bc58106070962a7d7aad00e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 77/78] fix: scrolling the log view from its end, and back

Scrolling up from the end moved by up to 9 lines less than asked for, and
scrolling down one by one never got to following the log again.
---
 x/platform/hud.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 0ae0708..281b6d3 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -666,7 +666,7 @@ func (lv *LogView) Update(ctx *Context) error {
 	bounds.Max = bounds.Max.Add(image.Pt(0, 1)) // TODO ideally utilize the final column too
 
 	if delta := ctx.Input.TotalScrollIn(bounds); delta != 0 {
-		lv.scrollBy(lines, delta)
+		lv.scrollBy(lines, viewLines, delta)
 	}
 
 	// render
@@ -688,13 +688,10 @@ func (lv *LogView) Update(ctx *Context) error {
 	return nil
 }
 
-func (lv *LogView) scrollBy(lines, delta int) {
-	start := lv.Line
-	if start == 0 {
-		start = lines
-	}
+func (lv *LogView) scrollBy(lines, viewLines, delta int) {
+	start, _ := lv.viewWindow(lines, viewLines)
 	start += delta
-	if start >= lines {
+	if start > lines-viewLines {
 		start = 0
 	} else if start < 1 {
 		start = 1
-- 
2.43.0


From 3092cc0d16bf1b9d962efead8eff31a49741fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 78/78] fix: log lines as wide as the screen pushed the next
 one down

---
 x/platform/hud.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 281b6d3..9359164 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -671,19 +671,22 @@ func (lv *LogView) Update(ctx *Context) error {
 
 	// render
 	start, end := lv.viewWindow(lines, viewLines)
+	y := bounds.Min.Y
 	ctx.Output.To(bounds.Min)
 	if height > 1 {
 		fmt.Fprintf(ctx.Output, "Logs (%v-%v/%v):", start, end, lines)
+		y++
 	}
 	off := 0
 	if start > 1 {
 		off = eolOffsets[start-2] + 1
 	}
 	for _, eol := range eolOffsets[start-1 : end] {
-		ctx.Output.To(ansi.Pt(1, ctx.Output.Cursor.Y+1))
+		ctx.Output.To(ansi.Pt(1, y)) // writing a full row has moved the cursor to the next one
 		w := bounds.Max.X - ctx.Output.Cursor.X
 		writeTruncated(ctx, w, content[off:eol])
 		off = eol + 1
+		y++
 	}
 	return nil
 }
-- 
2.43.0

