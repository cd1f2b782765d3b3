From 1a80fdf4a5e7aca967759e74e8b1aa81ce548918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:52 +0000
Subject: [PATCH 01/64] fix: blend the green and blue channels with their own
 bottom channel

---
 composite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 0033617..4b099f1 100644
--- a/composite.go
+++ b/composite.go
@@ -171,8 +171,8 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 
 	return color.NRGBA64{
 		R: blend(bottom.A, bottom.R, ma, f(bottom.R, top.R)),
-		G: blend(bottom.A, bottom.G, ma, f(bottom.R, top.G)),
-		B: blend(bottom.A, bottom.B, ma, f(bottom.R, top.B)),
+		G: blend(bottom.A, bottom.G, ma, f(bottom.G, top.G)),
+		B: blend(bottom.A, bottom.B, ma, f(bottom.B, top.B)),
 		A: bottom.A,
 	}
 }
-- 
2.43.0


From 436ec5200f23c7fe30acc758caca09efbef8a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:52 +0000
Subject: [PATCH 02/64] fix: use the bottom channel in the screen part of
 Overlay

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 4b099f1..912dd6e 100644
--- a/composite.go
+++ b/composite.go
@@ -211,7 +211,7 @@ func compositeScreen(x, y uint16) uint16 {
 func compositeOverlay(ax, ay uint16) uint16 {
 	x := uint32(ax)
 	y := uint32(ay)
-	t := 0xffff - y
+	t := 0xffff - x
 
 	return uint16((0xffff-y)*(x*x/0xffff)/0xffff + y*(0xffff-(t*t/0xffff))/0xffff)
 }
-- 
2.43.0


From f1eb247efa9a100c4674f1f9c597556e64063681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:53 +0000
Subject: [PATCH 03/64] fix: Burn gives black, not white, where it underflows
 or the top is black

---
 composite.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composite.go b/composite.go
index 912dd6e..8941ea4 100644
--- a/composite.go
+++ b/composite.go
@@ -271,13 +271,13 @@ func compositeDodge(x, y uint16) uint16 {
 func compositeBurn(x, y uint16) uint16 {
 	if y == 0 {
 		if x == 0xffff {
-			return 0
+			return 0xffff
 		}
 
-		return 0xffff
+		return 0
 	}
 
-	return clamp(0xffff - 0xffff*(0xffff-uint32(x))/uint32(y))
+	return 0xffff - clamp(0xffff*(0xffff-uint32(x))/uint32(y))
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-- 
2.43.0


From 16fbd3a3f18f14c404c0b6a380b10b9188bcc1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:53 +0000
Subject: [PATCH 04/64] fix: Hard Light must not wrap around at the middle
 value

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 8941ea4..f34a71a 100644
--- a/composite.go
+++ b/composite.go
@@ -281,7 +281,7 @@ func compositeBurn(x, y uint16) uint16 {
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-	if y < 0x7fff {
+	if y <= 0x7fff {
 		return uint16(uint32(x) * (uint32(y) << 1) / 0xffff)
 	}
 
-- 
2.43.0


From 05ff21e39999decc583418bdcad5bd3a92a017f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:53 +0000
Subject: [PATCH 05/64] fix: Grain Merge subtracts the middle value

---
 composite.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index f34a71a..bc436be 100644
--- a/composite.go
+++ b/composite.go
@@ -304,7 +304,13 @@ func compositeGrainExtract(ax, ay uint16) uint16 {
 }
 
 func compositeGrainMerge(x, y uint16) uint16 {
-	return clamp(uint32(x) + uint32(y) + 0x7fff)
+	s := uint32(x) + uint32(y)
+
+	if s < 0x7fff {
+		return 0
+	}
+
+	return clamp(s - 0x7fff)
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-- 
2.43.0


From 0eca6608a1d122f46123234505a01b4393df0bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:53 +0000
Subject: [PATCH 06/64] fix: Dissolve chooses the top by the alpha of the top

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index bc436be..c0b27a0 100644
--- a/composite.go
+++ b/composite.go
@@ -191,7 +191,7 @@ func compositeNormal(bottom, top color.NRGBA64) color.NRGBA64 {
 }
 
 func compositeDissolve(bottom, top color.NRGBA64) color.NRGBA64 {
-	if uint16(rand.Int31n(0xffff)) < bottom.A {
+	if uint16(rand.Int31n(0xffff)) < top.A {
 		top.A = 0xffff
 
 		return top
-- 
2.43.0


From f8a783c9b8b17fd4a8af3a7eb46552657ff49c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:00 +0000
Subject: [PATCH 07/64] fix: the hue, saturation, colour, value and luminosity
 modes heed both alphas

---
 composite.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/composite.go b/composite.go
index c0b27a0..9d420f7 100644
--- a/composite.go
+++ b/composite.go
@@ -140,15 +140,15 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 	case CompositeDissolve:
 		return compositeDissolve(bottom, top)
 	case CompositeHue:
-		return compositeHue(bottom, top)
+		return blendColour(bottom, top, compositeHue(bottom, top))
 	case CompositeSaturation:
-		return compositeSaturation(bottom, top)
+		return blendColour(bottom, top, compositeSaturation(bottom, top))
 	case CompositeColor:
-		return compositeColor(bottom, top)
+		return blendColour(bottom, top, compositeColor(bottom, top))
 	case CompositeValue:
-		return compositeValue(bottom, top)
+		return blendColour(bottom, top, compositeValue(bottom, top))
 	case CompositeLuminosity:
-		return compositeColor(top, bottom)
+		return blendColour(bottom, top, compositeColor(top, bottom))
 	case CompositePlus:
 		return compositePlus(bottom, top)
 	case CompositeDestinationIn:
@@ -314,9 +314,7 @@ func compositeGrainMerge(x, y uint16) uint16 {
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-	br, bg, bb, _ := top.RGBA()
-
-	if br == bg && br == bb {
+	if top.R == top.G && top.R == top.B {
 		return bottom
 	}
 
@@ -366,6 +364,24 @@ func compositeAtop(bottom, top color.NRGBA64) color.NRGBA64 {
 	return compositeNormal(bottom, top)
 }
 
+// blendColour mixes the bottom with the given colour by the smaller of the two
+// alphas, keeping the alpha of the bottom.
+func blendColour(bottom, top color.NRGBA64, c color.Color) color.Color {
+	if bottom.A == 0 {
+		return color.NRGBA64{}
+	}
+
+	ma := internal.Min(bottom.A, top.A)
+	d := internal.ColourToNRGBA(c)
+
+	return color.NRGBA64{
+		R: blend(bottom.A, bottom.R, ma, d.R),
+		G: blend(bottom.A, bottom.G, ma, d.G),
+		B: blend(bottom.A, bottom.B, ma, d.B),
+		A: bottom.A,
+	}
+}
+
 func clamp(n uint32) uint16 {
 	if n > 0xffff {
 		return 0xffff
-- 
2.43.0


From 09ae640e42ff47756abce33f36ab774c94a8801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:01 +0000
Subject: [PATCH 08/64] fix: conversion of HSL colours to RGB

---
 lcolor/hsl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcolor/hsl.go b/lcolor/hsl.go
index b623cef..978d35e 100644
--- a/lcolor/hsl.go
+++ b/lcolor/hsl.go
@@ -57,13 +57,13 @@ func (h HSLA) ToNRGBA() color.NRGBA64 {
 	}
 
 	c := uint32(h.L) << 1
-	if c < 0x7fff {
+	if c > 0xffff {
 		c = 0x1fffe - c
 	}
 
 	c = c * uint32(h.S) / 0xffff
 
-	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>2), h.A)
+	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>1), h.A)
 }
 
 // HSVA represents the Hue, Saturation, Value and Alpha of a pixel.
-- 
2.43.0


From d4a5c3109b94178932bbf4c9ee1b724f65ffd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:01 +0000
Subject: [PATCH 09/64] fix: the gray-alpha model keeps the luminance of
 translucent colours

---
 lcolor/gray.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lcolor/gray.go b/lcolor/gray.go
index 71a16dc..ab625be 100644
--- a/lcolor/gray.go
+++ b/lcolor/gray.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // GrayAlpha represents a Gray color with an Alpha channel.
 type GrayAlpha struct {
@@ -30,10 +34,12 @@ func (c GrayAlpha) ToNRGBA() color.NRGBA64 {
 }
 
 func grayAlphaColourModel(c color.Color) color.Color {
-	_, _, _, a := c.RGBA()
+	n := internal.ColourToNRGBA(c)
+	a := n.A
+	n.A = 0xffff
 
 	return GrayAlpha{
-		Y: color.GrayModel.Convert(c).(color.Gray).Y,
+		Y: color.GrayModel.Convert(n).(color.Gray).Y,
 		A: uint8(a >> 8),
 	}
 }
-- 
2.43.0


From 94c333e4ca1f8679e2c0afef9a4aa01e4a63d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:01 +0000
Subject: [PATCH 10/64] fix: the alpha palette disregards transparency when
 choosing an entry

---
 lcolor/indexed.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lcolor/indexed.go b/lcolor/indexed.go
index 27afb72..9b56183 100644
--- a/lcolor/indexed.go
+++ b/lcolor/indexed.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // AlphaPalette is an extension to the normal color.Palette type.
 type AlphaPalette color.Palette
@@ -8,7 +12,11 @@ type AlphaPalette color.Palette
 // Convert converts the given color to the nearest color in the palette, but
 // preserves the alpha channel.
 func (ap AlphaPalette) Convert(c color.Color) color.Color {
-	r, g, b, _ := color.Palette(ap).Convert(c).RGBA()
+	if len(ap) == 0 {
+		return nil
+	}
+
+	r, g, b, _ := ap[ap.Index(c)].RGBA()
 	_, _, _, a := c.RGBA()
 
 	return color.NRGBA64{
@@ -19,9 +27,13 @@ func (ap AlphaPalette) Convert(c color.Color) color.Color {
 	}
 }
 
-// Index returns the palette index of the nearest color.
+// Index returns the palette index of the nearest color, disregarding its alpha
+// channel.
 func (ap AlphaPalette) Index(c color.Color) int {
-	return color.Palette(ap).Index(c)
+	n := internal.ColourToNRGBA(c)
+	n.A = 0xffff
+
+	return color.Palette(ap).Index(n)
 }
 
 // IndexedAlpha is the combination of a palette index and an Alpha channel.
-- 
2.43.0


From 0f77af7375a4828188daeed79a7dbcf5d9640bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:01 +0000
Subject: [PATCH 11/64] fix: Opaque judges exactly the pixels within the
 image's bounds

---
 grayalpha.go    |  8 +++++---
 indexedalpha.go | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/grayalpha.go b/grayalpha.go
index 2349a4b..92c396d 100644
--- a/grayalpha.go
+++ b/grayalpha.go
@@ -52,9 +52,11 @@ func (g *GrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 
 // Opaque returns true if all pixels have full alpha.
 func (g *GrayAlpha) Opaque() bool {
-	for _, c := range g.Pix {
-		if c.A != 255 {
-			return false
+	for y := g.Rect.Min.Y; y < g.Rect.Max.Y; y++ {
+		for x := g.Rect.Min.X; x < g.Rect.Max.X; x++ {
+			if g.Pix[g.PixOffset(x, y)].A != 255 {
+				return false
+			}
 		}
 	}
 
diff --git a/indexedalpha.go b/indexedalpha.go
index dd51a6f..8de9420 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -66,13 +66,15 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 
 // Opaque returns true if the image is completely opaque.
 func (p *PalettedAlpha) Opaque() bool {
-	for _, c := range p.Pix {
-		if c.A != 255 {
-			return true
+	for y := p.Rect.Min.Y; y < p.Rect.Max.Y; y++ {
+		for x := p.Rect.Min.X; x < p.Rect.Max.X; x++ {
+			if p.Pix[p.PixOffset(x, y)].A != 255 {
+				return false
+			}
 		}
 	}
 
-	return false
+	return true
 }
 
 // PixOffset returns the index of the Pix array corresponding to the given
-- 
2.43.0


From 2e6f870b2172b253d9d9cb0c295db427c8a7e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:17 +0000
Subject: [PATCH 12/64] fix: sub-images of layers show the same picture, not a
 shifted one

---
 layer.go | 71 +++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 70 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index f156769..f6decd1 100644
--- a/layer.go
+++ b/layer.go
@@ -34,7 +34,76 @@ func (l Layer) SubImage(r image.Rectangle) image.Image {
 // SubImageLayer returns an image representing the portion of the image p
 // visible through r. The returned value shares pixels with the original image.
 func (l Layer) SubImageLayer(r image.Rectangle) Layer {
-	l.LayerBounds = r.Intersect(l.LayerBounds)
+	r = r.Intersect(l.LayerBounds)
+
+	if r != l.LayerBounds && !r.Empty() {
+		l.Image = crop(l.Image, r.Sub(l.LayerBounds.Min))
+	}
+
+	l.LayerBounds = r
 
 	return l
 }
+
+// crop returns the part of the image that lies within r, moved to the origin.
+func crop(im image.Image, r image.Rectangle) image.Image {
+	switch im := im.(type) {
+	case nil:
+		return nil
+	case Image:
+		return im.crop(r)
+	case *Image:
+		return im.crop(r)
+	case MaskedImage:
+		return im.crop(r)
+	case *MaskedImage:
+		return im.crop(r)
+	case Text:
+		return Text{Image: crop(im.Image, r), TextData: im.TextData}
+	case *Text:
+		return Text{Image: crop(im.Image, r), TextData: im.TextData}
+	case croppedImage:
+		return croppedImage{Image: im.Image, rect: r.Add(im.rect.Min)}
+	}
+
+	return croppedImage{Image: im, rect: r}
+}
+
+func (g Image) crop(r image.Rectangle) Image {
+	h := make(Image, len(g))
+
+	for n, l := range g {
+		h[n] = l.SubImageLayer(r)
+
+		if !h[n].LayerBounds.Empty() {
+			h[n].LayerBounds = h[n].LayerBounds.Sub(r.Min)
+		}
+	}
+
+	return h
+}
+
+func (m MaskedImage) crop(r image.Rectangle) MaskedImage {
+	mask := *m.Mask
+	mask.Rect = mask.Rect.Sub(r.Min)
+
+	return MaskedImage{
+		Image: crop(m.Image, r),
+		Mask:  mask.SubImage(image.Rectangle{Max: r.Size()}).(*image.Gray),
+	}
+}
+
+// croppedImage shows the part of an image that lies within rect, moved to the
+// origin.
+type croppedImage struct {
+	image.Image
+	rect image.Rectangle
+}
+
+func (c croppedImage) Bounds() image.Rectangle {
+	return image.Rectangle{Max: c.rect.Size()}
+}
+
+func (c croppedImage) At(x, y int) color.Color {
+	return c.Image.At(x+c.rect.Min.X, y+c.rect.Min.Y)
+}
-- 
2.43.0


From 4ad5513310ca73bb02d6307eda23e833c2cedb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 13/64] fix: write the transparency of OpenRaster layers as
 opacity

---
 ora/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index f1bd534..f6f0c5a 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -195,7 +195,7 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 
 	if lim.Transparency != 0 {
 		attrs = append(attrs, xml.Attr{
-			Name:  xml.Name{Local: "visibility"},
+			Name:  xml.Name{Local: "opacity"},
 			Value: strconv.FormatFloat(float64(255-lim.Transparency)/255, 'f', -1, 64),
 		})
 	}
-- 
2.43.0


From 9d570f808d36564bc58af82840b750dbbc045f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 14/64] fix: write negative offsets of OpenRaster layers

---
 ora/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index f6f0c5a..033ba52 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -172,14 +172,14 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 		})
 	}
 
-	if b.X > 0 {
+	if b.X != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "x"},
 			Value: strconv.Itoa(b.X),
 		})
 	}
 
-	if b.Y > 0 {
+	if b.Y != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "y"},
 			Value: strconv.Itoa(b.Y),
-- 
2.43.0


From 6acd7b3df6a1937de1af6bf5404668af28f1bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 15/64] fix: round and clamp the opacity of OpenRaster layers

---
 ora/stack.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ora/stack.go b/ora/stack.go
index ef75333..4bbd812 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"image"
+	"math"
 	"strconv"
 
 	"vimagination.zapto.org/limage"
@@ -125,7 +126,13 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 				return "", err
 			}
 
-			l.Transparency = uint8(255 * (1 - o))
+			if !(o > 0) {
+				o = 0
+			} else if o > 1 {
+				o = 1
+			}
+
+			l.Transparency = uint8(math.Round(255 * (1 - o)))
 		case "visibility":
 			l.Invisible = a.Value == "hidden"
 		case "composite-op":
-- 
2.43.0


From c71ec5d5e4e3f0651cf7c6767f67dc3c175b238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 16/64] fix: the thumbnail shows the whole picture and is never
 empty

---
 ora/thumbnail.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ora/thumbnail.go b/ora/thumbnail.go
index cf12819..0e266d7 100644
--- a/ora/thumbnail.go
+++ b/ora/thumbnail.go
@@ -3,6 +3,7 @@ package ora
 import (
 	"image"
 	"image/color"
+	"math"
 )
 
 type thumbnail struct {
@@ -12,14 +13,20 @@ type thumbnail struct {
 
 func (t thumbnail) Bounds() image.Rectangle {
 	b := t.Image.Bounds()
-	b.Min.X = int(float64(b.Min.X) / t.scale)
-	b.Min.Y = int(float64(b.Min.Y) / t.scale)
-	b.Max.X = int(float64(b.Max.X) / t.scale)
-	b.Max.Y = int(float64(b.Max.Y) / t.scale)
 
-	return b
+	return image.Rect(0, 0, t.reduce(b.Dx()), t.reduce(b.Dy()))
+}
+
+func (t thumbnail) reduce(length int) int {
+	if length = int(math.Round(float64(length) / t.scale)); length < 1 {
+		return 1
+	}
+
+	return length
 }
 
 func (t thumbnail) At(x, y int) color.Color {
-	return t.Image.At(int(float64(x)/t.scale), int(float64(x)/t.scale))
+	b := t.Image.Bounds()
+
+	return t.Image.At(b.Min.X+int(float64(x)*t.scale), b.Min.Y+int(float64(y)*t.scale))
 }
-- 
2.43.0


From 7312cae3d331360ab7ebcf762e7985ef203808fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 17/64] fix: report a failure to finish the OpenRaster archive

---
 ora/encode.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index 033ba52..1dee5d5 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -21,8 +21,15 @@ func Encode(w io.Writer, m image.Image) error {
 	lim.LayerBounds.Max.Y = b.Dy()
 
 	zw := zip.NewWriter(w)
-	defer zw.Close()
 
+	if err := writeArchive(zw, m, lim); err != nil {
+		return err
+	}
+
+	return zw.Close()
+}
+
+func writeArchive(zw *zip.Writer, m image.Image, lim limage.Layer) error {
 	fw, err := zw.CreateHeader(&zip.FileHeader{
 		Name:   "mimetype",
 		Method: zip.Store,
-- 
2.43.0


From 6f9bf21973c088eac583f1fb0010ea15b40d97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 18/64] fix: write single layers, plain images and images away
 from the origin as readable OpenRaster files

---
 ora/encode.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 1dee5d5..e132b10 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -75,20 +75,34 @@ func writeArchive(zw *zip.Writer, m image.Image, lim limage.Layer) error {
 	return writeImage(e, zw, m, lim)
 }
 
+// toLayer returns the root stack, moved to the origin.
 func toLayer(m image.Image) limage.Layer {
+	var root limage.Image
+
 	switch im := m.(type) {
+	case limage.Image:
+		root = append(root, im...)
+	case *limage.Image:
+		root = append(root, *im...)
 	case limage.Layer:
-		return limage.Layer{
-			Image: im.Image,
-		}
+		root = limage.Image{im}
 	case *limage.Layer:
-		return limage.Layer{
-			Image: im.Image,
-		}
+		root = limage.Image{*im}
 	default:
-		return limage.Layer{
-			Image: m,
-		}
+		root = limage.Image{{
+			LayerBounds: m.Bounds(),
+			Image:       m,
+		}}
+	}
+
+	min := m.Bounds().Min
+
+	for n := range root {
+		root[n].LayerBounds = root[n].LayerBounds.Sub(min)
+	}
+
+	return limage.Layer{
+		Image: root,
 	}
 }
 
-- 
2.43.0


From 1cbcdb2e58d118a56332bc3a068e1254d5428b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:00 +0000
Subject: [PATCH 19/64] fix: keep the colours of composed and masked images in
 OpenRaster files

---
 ora/encode.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index e132b10..ea46178 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -4,6 +4,7 @@ import (
 	"archive/zip"
 	"encoding/xml"
 	"image"
+	"image/color"
 	"image/png"
 	"io"
 	"strconv"
@@ -121,7 +122,7 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 		return err
 	} else if fw, err = zw.Create("mergedimage.png"); err != nil {
 		return err
-	} else if err = png.Encode(fw, m); err != nil {
+	} else if err = png.Encode(fw, flatten(m)); err != nil {
 		return err
 	} else if fw, err = zw.Create("Thumbnails/thumbnail.png"); err != nil {
 		return err
@@ -137,7 +138,26 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 		m = thumbnail{Image: m, scale: scale}
 	}
 
-	return png.Encode(fw, m)
+	return png.Encode(fw, flatten(m))
+}
+
+// flattened is an image whose colours may lie outside of the color model it
+// claims, as it takes it from just one of its parts.
+type flattened struct {
+	image.Image
+}
+
+func (flattened) ColorModel() color.Model {
+	return color.NRGBA64Model
+}
+
+func flatten(m image.Image) image.Image {
+	switch m.(type) {
+	case limage.Image, *limage.Image, limage.Layer, *limage.Layer, limage.MaskedImage, *limage.MaskedImage, limage.Text, *limage.Text, thumbnail:
+		return flattened{Image: m}
+	}
+
+	return m
 }
 
 func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
@@ -160,7 +180,7 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 			return 0, err
 		}
 
-		err = png.Encode(f, lim.Image)
+		err = png.Encode(f, flatten(lim.Image))
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From acb642b3445d5fbc38e65d4d87101e27c56b1315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:00 +0000
Subject: [PATCH 20/64] fix: place nested and clipped OpenRaster layers where
 the document puts them

---
 ora/stack.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/ora/stack.go b/ora/stack.go
index 4bbd812..22efe23 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -60,12 +60,13 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 	}
 
 	if s.Name.Local == "stack" {
-		var err error
-
-		l.Image, err = d.readStack(offset.Add(l.LayerBounds.Min))
+		group, err := d.readStack(offset.Add(l.LayerBounds.Min))
 		if err != nil {
 			return l, err
 		}
+
+		l.LayerBounds = groupBounds(group, l.LayerBounds.Min)
+		l.Image = group
 	} else {
 		for _, f := range d.zr.File {
 			if f.Name == source {
@@ -92,11 +93,26 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		if err := d.skipTag(); err != nil {
 			return l, err
 		}
+
+		l.LayerBounds.Max = l.LayerBounds.Min.Add(l.Image.Bounds().Size())
 	}
 
-	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits.Add(offset)}).Sub(offset)
+	return l.SubImageLayer(image.Rectangle{Max: d.limits}.Sub(offset)), nil
+}
+
+// groupBounds returns the bounds of a group at the given position, moving the
+// layers of the group so that none start before the group itself does.
+func groupBounds(group limage.Image, pos image.Point) image.Rectangle {
+	b := group.Bounds()
+	before := image.Rectangle{Max: b.Max}.Union(b).Min
+
+	for n, l := range group {
+		if !l.LayerBounds.Empty() {
+			group[n].LayerBounds = l.LayerBounds.Sub(before)
+		}
+	}
 
-	return l, nil
+	return image.Rectangle{Min: before, Max: b.Max}.Add(pos)
 }
 
 func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
-- 
2.43.0


From 0457004a365213e807c68544d29f29a63d3d7674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:00 +0000
Subject: [PATCH 21/64] fix: refuse truncated and misnested OpenRaster stack
 documents

---
 ora/decode.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ora/decode.go b/ora/decode.go
index 0d2c16f..d03c801 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -174,10 +174,23 @@ func Decode(zr *zip.Reader) (limage.Image, error) {
 			if err := d.skipTag(); err != nil {
 				return nil, err
 			}
+		} else if _, ok := t.(xml.EndElement); ok {
+			return nil, ErrInvalidStack
 		}
 	}
 
-	return d.readStack(image.Point{})
+	im, err := d.readStack(image.Point{})
+	if err != nil {
+		return nil, err
+	}
+
+	for { // the rest of the document must be well-formed.
+		if _, err := d.x.Token(); errors.Is(err, io.EOF) {
+			return im, nil
+		} else if err != nil {
+			return nil, err
+		}
+	}
 }
 
 // Errors.
-- 
2.43.0


From ac04abd775fdd3fc861d6843a64a09875b521b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 22/64] fix: positional reads from a seeker keep their lock,
 position and length right

---
 internal/bufioToReader.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index 0a64028..f3737e5 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -2,6 +2,7 @@ package internal // import "vimagination.zapto.org/limage/internal"
 
 import (
 	"bufio"
+	"errors"
 	"io"
 	"sync"
 	"unsafe"
@@ -20,27 +21,20 @@ type bufioReader struct {
 type readerAt struct {
 	readMutex  sync.Mutex
 	ReadSeeker io.ReadSeeker
-	pos        int64
 }
 
 func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 	r.readMutex.Lock()
+	defer r.readMutex.Unlock()
 
-	var (
-		n   int
-		err error
-	)
-
-	if offset != r.pos {
-		r.pos, err = r.ReadSeeker.Seek(offset, io.SeekStart)
-		if err != nil {
-			return 0, err
-		}
+	if _, err := r.ReadSeeker.Seek(offset, io.SeekStart); err != nil {
+		return 0, err
 	}
 
-	n, err = r.ReadSeeker.Read(p)
-	r.pos += int64(n)
-	r.readMutex.Unlock()
+	n, err := io.ReadFull(r.ReadSeeker, p)
+	if errors.Is(err, io.ErrUnexpectedEOF) {
+		err = io.EOF
+	}
 
 	return n, err
 }
-- 
2.43.0


From a0671376374fbf4680d243208fc5d0d77c3665a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 23/64] fix: readers buffered more than once can be read by
 position

---
 internal/bufioToReader.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index f3737e5..3fe15da 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -40,19 +40,7 @@ func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 }
 
 func bufioToReader(b *bufio.Reader) io.ReaderAt {
-	br := (*bufioReader)(unsafe.Pointer(b))
-
-	if ra, ok := br.rd.(io.ReaderAt); ok {
-		return ra
-	} else if rs, ok := br.rd.(io.ReadSeeker); ok {
-		rs.Seek(0, 0)
-
-		return &readerAt{
-			ReadSeeker: rs,
-		}
-	}
-
-	return nil
+	return GetReaderAt((*bufioReader)(unsafe.Pointer(b)).rd)
 }
 
 // GetReaderAt tries to make a io.ReaderAt from an io.Reader.
-- 
2.43.0


From ec5682b5508a4d928fa42acfa2f744bc6fcfbe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 24/64] fix: read XCF files larger than 16 MiB

---
 xcf/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 7926f6f..3d1a281 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
@@ -15,7 +16,7 @@ type reader struct {
 
 func newReader(r io.ReaderAt) reader {
 	nr := reader{
-		rs: io.NewSectionReader(r, 0, maxString),
+		rs: io.NewSectionReader(r, 0, math.MaxInt64),
 	}
 
 	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: nr.rs}
-- 
2.43.0


From 7f00e4200bebba1940606e55ea5f070affbc57af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 25/64] fix: skip the precision of version 4 to 10 files when
 decoding the configuration

---
 xcf/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 7b60fbc..3f7fb70 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -86,7 +86,7 @@ func DecodeConfig(r io.ReaderAt) (image.Config, error) {
 	c.Height = int(dr.ReadUint32())
 	baseType := dr.ReadUint32()
 
-	if mode == 2 {
+	if mode > 0 {
 		dr.ReadUint32()
 	}
 
-- 
2.43.0


From 186e484b247949a0f2b92a3ef0df04bbb3ec47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 26/64] fix: skip the colour map of images that are not
 indexed, refuse impossible ones

---
 xcf/decoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 3f7fb70..005ad56 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -242,9 +242,16 @@ PropertyLoop:
 		case propColorMap:
 			if baseType != baseIndexed {
 				dr.Skip(plength) // skip
+
+				break
+			}
+
+			colours := dr.ReadUint32()
+			if colours > 256 {
+				return nil, 0, ErrInvalidProperties
 			}
 
-			palette = make(lcolor.AlphaPalette, dr.ReadUint32())
+			palette = make(lcolor.AlphaPalette, colours)
 
 			for n := range palette {
 				palette[n] = lcolor.RGB{
-- 
2.43.0


From 8de8beebc6f256e96d8be2a55d9834a99ff440df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 27/64] fix: skip guides, sample points and vectors by their
 length

---
 xcf/decoder.go |  7 ++-----
 xcf/skip.go    | 12 ++++++------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 005ad56..4f2b8f8 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -273,7 +273,7 @@ PropertyLoop:
 
 			for n := uint32(0); n < ng; n++ {
 				dr.SkipUint32()
-				dr.SkipBoolProperty()
+				dr.SkipByte()
 			}
 		case propPaths:
 			dr.SkipPaths()
@@ -285,10 +285,7 @@ PropertyLoop:
 				return nil, 0, ErrInvalidSampleLength
 			}
 
-			for i := uint32(0); i < plength>>1; i++ {
-				dr.SkipUint32()
-				dr.SkipUint32()
-			}
+			dr.Skip(plength)
 		case propUnit:
 			if dr.ReadUint32() > 4 {
 				return nil, 0, ErrInvalidUnit
diff --git a/xcf/skip.go b/xcf/skip.go
index 078fca3..6f3bad7 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -105,13 +105,13 @@ func (r *reader) SkipVectors() {
 			switch nf {
 			case 2, 3, 4, 5, 6:
 				/*
-					2: Bool + Float32 + Float32 = 5
-					3: +Float32 = 9
-					4: +Float32 = 13
-					5: +Float32 = 17
-					6: +Float32 = 21
+					2: Bool + Float32 + Float32 = 12
+					3: +Float32 = 16
+					4: +Float32 = 20
+					5: +Float32 = 24
+					6: +Float32 = 28
 				*/
-				r.Skip(np * (nf*4 + 1))
+				r.Skip(np * (nf*4 + 4))
 			default:
 				r.SetError(ErrInvalidFloatsNumber)
 
-- 
2.43.0


From ec330a3b521972e24cddecab0a0d1180ebf110d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 28/64] fix: do not loop on stated counts after the data has
 run out

---
 xcf/parasites.go | 2 +-
 xcf/skip.go      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index d36bdc6..1f8b79e 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -36,7 +36,7 @@ func (p parasites) Get(name string) *parasite {
 func (d *reader) ReadParasites(l uint32) parasites {
 	ps := make(parasites, 0, 32)
 
-	for l > 0 {
+	for l > 0 && d.Err == nil {
 		var p parasite
 
 		p.name = d.ReadString()
diff --git a/xcf/skip.go b/xcf/skip.go
index 6f3bad7..3a15117 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -41,7 +41,7 @@ func (r *reader) SkipPaths() {
 
 	n := r.ReadUint32()
 
-	for i := uint32(0); i < n; i++ {
+	for i := uint32(0); i < n && r.Err == nil; i++ {
 		r.SkipString()       // name
 		r.SkipBoolProperty() // linked
 		r.SkipByte()         // state
@@ -77,7 +77,7 @@ func (r *reader) SkipVectors() {
 
 	n := r.ReadUint32()
 
-	for i := uint32(0); i < n; i++ {
+	for i := uint32(0); i < n && r.Err == nil; i++ {
 		r.SkipString()       // name
 		r.SkipUint32()       // tattoo
 		r.SkipBoolProperty() // visible
@@ -86,7 +86,7 @@ func (r *reader) SkipVectors() {
 		m := r.ReadUint32()
 		k := r.ReadUint32()
 
-		for j := uint32(0); j < m; j++ {
+		for j := uint32(0); j < m && r.Err == nil; j++ {
 			r.SkipParasite()
 		}
 
-- 
2.43.0


From 14648bde70c0c9333055099c0ae67436bd523e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 29/64] fix: count unnamed parasites by the bytes they take, do
 not trust stated lengths

---
 xcf/parasites.go | 15 ++++++---------
 xcf/reader.go    | 27 ++++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index 1f8b79e..8aef135 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -39,24 +39,21 @@ func (d *reader) ReadParasites(l uint32) parasites {
 	for l > 0 && d.Err == nil {
 		var p parasite
 
+		start := d.pos()
 		p.name = d.ReadString()
 		p.flags = d.ReadUint32()
 		pplength := d.ReadUint32()
-		read := 4 + uint32(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
-		read += 4                           // flags
-		read += 4                           // pplength
-		read += pplength                    // len(data)
+		read := uint64(d.pos() - start) // name, flags and pplength
+		read += uint64(pplength)        // len(data)
 
-		if read > l {
+		if read > uint64(l) {
 			d.SetError(ErrInvalidParasites)
 
 			return nil
 		}
 
-		l -= read
-		p.data = make([]byte, pplength)
-
-		d.Read(p.data)
+		l -= uint32(read)
+		p.data = d.ReadBytes(pplength)
 
 		ps = append(ps, p)
 	}
diff --git a/xcf/reader.go b/xcf/reader.go
index 3d1a281..b54dcd0 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -36,11 +36,8 @@ func (r *reader) ReadString() string {
 		return ""
 	}
 
-	b := make([]byte, length)
-
-	if _, err := io.ReadFull(r, b); err != nil {
-		r.Err = err
-
+	b := r.ReadBytes(length)
+	if r.Err != nil {
 		return ""
 	}
 
@@ -53,10 +50,30 @@ func (r *reader) ReadString() string {
 	return string(b[:length-1])
 }
 
+// ReadBytes reads n bytes, using no more memory than there is data.
+func (r *reader) ReadBytes(n uint32) []byte {
+	b, err := io.ReadAll(io.LimitReader(r, int64(n)))
+	if err == nil && uint32(len(b)) < n {
+		err = io.ErrUnexpectedEOF
+	}
+
+	if err != nil {
+		r.SetError(err)
+	}
+
+	return b
+}
+
 func (r *reader) Goto(n uint64) {
 	r.rs.Seek(int64(n), io.SeekStart)
 }
 
+func (r *reader) pos() int64 {
+	n, _ := r.rs.Seek(0, io.SeekCurrent)
+
+	return n
+}
+
 func (r *reader) SetError(err error) {
 	if r.Err == nil {
 		r.Err = err
-- 
2.43.0


From 9679b3cd241ff91952346bb3ff5a4b59818e3c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 30/64] fix: report pointers beyond any file

---
 xcf/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index b54dcd0..559698a 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -65,7 +65,9 @@ func (r *reader) ReadBytes(n uint32) []byte {
 }
 
 func (r *reader) Goto(n uint64) {
-	r.rs.Seek(int64(n), io.SeekStart)
+	if _, err := r.rs.Seek(int64(n), io.SeekStart); err != nil {
+		r.SetError(ErrInvalidSeek)
+	}
 }
 
 func (r *reader) pos() int64 {
-- 
2.43.0


From 9c5523103c32d01e000a03a156060cedf9068ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 31/64] fix: refuse images of an unknown base type

---
 xcf/decoder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 4f2b8f8..dca9657 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -102,6 +102,8 @@ func DecodeConfig(r io.ReaderAt) (image.Config, error) {
 		}
 
 		c.ColorModel = palette
+	default:
+		dr.SetError(ErrUnknownBaseType)
 	}
 
 	return c, dr.Err
@@ -138,6 +140,12 @@ func decodeImage(r io.ReaderAt, decompress bool) (limage.Image, error) {
 	bounds := image.Rect(0, 0, width, height)
 	baseType := dr.ReadUint32()
 
+	if baseType > baseIndexed {
+		dr.SetError(ErrUnknownBaseType)
+
+		return nil, dr.Err
+	}
+
 	var precision uint32
 
 	if mode > 0 {
@@ -451,6 +459,7 @@ var (
 	ErrInvalidUnit         = errors.New("invalid unit")
 	ErrInvalidSampleLength = errors.New("invalid sample points length")
 	ErrInvalidGroup        = errors.New("invalid or unknown group specified for layer")
+	ErrUnknownBaseType     = errors.New("unknown base type")
 	ErrUnknownCompression  = errors.New("unknown compression method")
 	ErrMissingAlpha        = errors.New("non-bottom layer missing alpha channel")
 	ErrNeedReaderAt        = errors.New("need a io.ReaderAt")
-- 
2.43.0


From 31b434fca72f8f90b62c4323ca926661fc95c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 32/64] fix: masks of layers that are not at the origin are
 consistent

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index e8d4bcd..a76b1f8 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -252,7 +252,7 @@ func (l *layer) readMask(d *decoder) {
 		return
 	}
 
-	if !l.LayerBounds.Eq(m.Mask.Bounds()) {
+	if l.LayerBounds.Size() != m.Mask.Bounds().Size() {
 		d.SetError(ErrInconsistantData)
 
 		return
-- 
2.43.0


From 4426a4d0ab0fce18413ec0e1271d29023a7552b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 33/64] fix: decode masks of images that are decoded with
 deferred decompression

---
 xcf/channel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index 56e79c6..75775b0 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -19,7 +19,10 @@ func (d *decoder) ReadChannel() *image.Gray {
 
 	d.Goto(hptr)
 
-	if im := d.ReadImage(width, height, 2); im != nil {
+	c := *d
+	c.decompress = true // a mask needs to be an image.Gray
+
+	if im := c.ReadImage(width, height, 2); im != nil {
 		return im.(*image.Gray) // gray
 	}
 
-- 
2.43.0


From c28b3c4a9bc96b33fc9134d0b9c5855ceff4408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 34/64] fix: round and clamp fractional layer opacities

---
 xcf/layer_decode.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index a76b1f8..84f789a 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -143,7 +143,7 @@ PropertyLoop:
 		case propTextLayerFlags:
 			d.SkipUint32()
 		case propFloatOpacity:
-			l.Transparency = 255 - uint8(d.ReadFloat32()*255)
+			l.Transparency = 255 - opacityByte(d.ReadFloat32())
 		default:
 			d.Skip(plength)
 		}
@@ -152,6 +152,16 @@ PropertyLoop:
 	return parasites
 }
 
+func opacityByte(o float32) uint8 {
+	if o >= 1 {
+		return 255
+	} else if o > 0 {
+		return uint8(o*255 + 0.5)
+	}
+
+	return 0
+}
+
 func (l *layer) readMode(d *decoder) {
 	switch d.ReadUint32() {
 	case 0, 28:
-- 
2.43.0


From b281bbadde40e8eb07aafa8d387f2a08be1c7f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 35/64] fix: allocate no more than the tiles of an image
 justify

---
 xcf/image_decode.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 9bb1b4c..5b3b006 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -38,9 +38,16 @@ func (d *decoder) ReadImage(width, height, mode uint32) image.Image {
 
 	if d.ReadUint32() != 0 {
 		d.SetError(ErrInconsistantData)
+	}
+
+	if d.Err != nil {
 		return nil
 	}
 
+	if len(tiles) == 0 { // no pixels
+		height = 0
+	}
+
 	r := image.Rect(0, 0, int(width), int(height))
 
 	if d.decompress || d.compression == 0 {
@@ -90,16 +97,10 @@ func (d *decoder) readLayerPointer() uint64 {
 }
 
 func (d *decoder) readTiles(width, height uint32) []uint64 {
-	tiles := make([]uint64, int(math.Ceil(float64(width)/64)*math.Ceil(float64(height)/64)))
+	var tiles []uint64
 
-	if d.mode < 2 {
-		for i := range tiles {
-			tiles[i] = uint64(d.ReadUint32())
-		}
-	} else {
-		for i := range tiles {
-			tiles[i] = d.ReadUint64()
-		}
+	for n := math.Ceil(float64(width)/64) * math.Ceil(float64(height)/64); n > 0 && d.Err == nil; n-- {
+		tiles = append(tiles, d.readLayerPointer())
 	}
 
 	return tiles
-- 
2.43.0


From c59f0b588294e81bf12da249bbd1b6a086078ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 36/64] fix: runs of an XCF tile do not cross its channels,
 whether or not it is decompressed at once

---
 xcf/image_decode.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 5b3b006..6222aec 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -170,12 +170,16 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 			}
 
 			n := w * h
-			_, err := cr.Read(pixBuffer[:n*bpp])
-
-			d.SetError(err)
 
 			for i := uint32(0); i < bpp; i++ {
 				channels[i] = pixBuffer[n*i : n*(i+1)]
+				_, err := cr.Read(channels[i])
+
+				d.SetError(err)
+			}
+
+			if d.Err != nil {
+				return nil
 			}
 
 			for j := uint32(0); j < h; j++ {
-- 
2.43.0


From 17fd9151f1cb7cdb9045e1d41c7baf00a2b472a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 37/64] fix: images without pixels have no tiles to read

---
 xcf/image_decode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 6222aec..439f602 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -44,12 +44,12 @@ func (d *decoder) ReadImage(width, height, mode uint32) image.Image {
 		return nil
 	}
 
-	if len(tiles) == 0 { // no pixels
+	r := image.Rect(0, 0, int(width), int(height))
+
+	if r.Empty() { // no tiles
 		height = 0
 	}
 
-	r := image.Rect(0, 0, int(width), int(height))
-
 	if d.decompress || d.compression == 0 {
 		return d.readAndDecompressImage(mode, r, bpp, width, height, tiles)
 	}
-- 
2.43.0


From 9f13619e3213d4f260ba08180c0a8f32d6df9bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 38/64] fix: uncompressed tiles hold whole pixels, not separate
 channels

---
 xcf/image_decode.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 439f602..38992fb 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -152,7 +152,6 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 	}
 
 	pixel := make([]byte, bpp)
-	channels := make([][]byte, bpp)
 
 	for y := uint32(0); y < height; y += 64 {
 		for x := uint32(0); x < width; x += 64 {
@@ -170,10 +169,14 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 			}
 
 			n := w * h
+			pixStride, chanStride := uint32(1), n
+
+			if d.compression == 0 { // all channels of a pixel lie together
+				pixStride, chanStride = bpp, 1
+			}
 
 			for i := uint32(0); i < bpp; i++ {
-				channels[i] = pixBuffer[n*i : n*(i+1)]
-				_, err := cr.Read(channels[i])
+				_, err := cr.Read(pixBuffer[n*i : n*(i+1)])
 
 				d.SetError(err)
 			}
@@ -185,8 +188,7 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 			for j := uint32(0); j < h; j++ {
 				for i := uint32(0); i < w; i++ {
 					for k := uint32(0); k < bpp; k++ {
-						pixel[k] = channels[k][0]
-						channels[k] = channels[k][1:]
+						pixel[k] = pixBuffer[(j*w+i)*pixStride+k*chanStride]
 					}
 
 					imReader.ReadColour(int(x+i), int(y+j), pixel)
-- 
2.43.0


From a2f30884991cfcc3bb5c2ae0ff10e8b9c4f7ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 39/64] fix: readers may report the end of the file with its
 last bytes

---
 xcf/reader.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 559698a..8ff8e91 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -19,11 +19,20 @@ func newReader(r io.ReaderAt) reader {
 		rs: io.NewSectionReader(r, 0, math.MaxInt64),
 	}
 
-	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: nr.rs}
+	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: fullReader{nr.rs}}
 
 	return nr
 }
 
+// fullReader does not report the end of the data together with the last of it.
+type fullReader struct {
+	io.Reader
+}
+
+func (f fullReader) Read(p []byte) (int, error) {
+	return io.ReadFull(f.Reader, p)
+}
+
 const maxString = 16 * 1024 * 1024
 
 func (r *reader) ReadString() string {
-- 
2.43.0


From 56289b2210f9497bdbfb9b083485df5fabee7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 40/64] fix: refuse pixels that are not in the palette

---
 xcf/image_decode.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 38992fb..7c4724f 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"math"
 
+	"vimagination.zapto.org/byteio"
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
 	"vimagination.zapto.org/memio"
@@ -181,6 +182,10 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 				d.SetError(err)
 			}
 
+			if mode >= 4 {
+				d.checkIndices(pixBuffer[:n*bpp], pixStride, n)
+			}
+
 			if d.Err != nil {
 				return nil
 			}
@@ -209,6 +214,8 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 
 	buf := make(memio.Buffer, 0, 64*64*4)
 
+	var pixBuffer [64 * 64]byte
+
 	for y := uint32(0); y < height; y += 64 {
 		for x := uint32(0); x < width; x += 64 {
 			d.Goto(tiles[0])
@@ -235,6 +242,13 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 
 				copy(b, buf)
 
+				if i == 0 && mode >= 4 {
+					r := rle{Reader: &byteio.StickyBigEndianReader{Reader: &buf}}
+
+					r.Read(pixBuffer[:n])
+					d.checkIndices(pixBuffer[:n], 1, n)
+				}
+
 				buf = buf[:0]
 				ts = append(ts, b)
 			}
@@ -261,6 +275,17 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 	}
 }
 
+// checkIndices checks that all of the indices of n pixels are in the palette.
+func (d *decoder) checkIndices(pix []byte, stride, n uint32) {
+	for p := uint32(0); p < n; p++ {
+		if int(pix[p*stride]) >= len(d.palette) {
+			d.SetError(ErrInconsistantData)
+
+			return
+		}
+	}
+}
+
 /*
 type colourReader interface {
 	ReadByte() byte
-- 
2.43.0


From cb72dcf5c6eebd286d69f4055e91c1f3301f80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 41/64] fix: deferred paletted images are outside of their
 bounds what others are

---
 xcf/compressed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcf/compressed.go b/xcf/compressed.go
index a2c4264..beff3b6 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -188,7 +188,7 @@ func (c *CompressedPaletted) At(x, y int) color.Color {
 	}
 
 	if !(image.Point{x, y}).In(c.Rect) {
-		return color.Gray{}
+		return c.Palette[0]
 	}
 
 	p := c.decompressTile(x, y)
@@ -224,7 +224,7 @@ func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
 	}
 
 	if !(image.Point{x, y}).In(c.Rect) {
-		return color.Gray{}
+		return color.NRGBA{}
 	}
 
 	p := c.decompressTile(x, y)
-- 
2.43.0


From 7b3ca30bf566bc59b271a72685578e9c93ba2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 42/64] fix: images with a palette without entries have no
 colours

---
 indexedalpha.go   | 2 +-
 xcf/compressed.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index 8de9420..6e6591d 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -29,7 +29,7 @@ func NewPalettedAlpha(r image.Rectangle, p lcolor.AlphaPalette) *PalettedAlpha {
 
 // At returns the color of the pixel at the given coords.
 func (p *PalettedAlpha) At(x, y int) color.Color {
-	if p.Palette == nil {
+	if len(p.Palette) == 0 {
 		return nil
 	}
 
diff --git a/xcf/compressed.go b/xcf/compressed.go
index beff3b6..71e5e9b 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -183,7 +183,7 @@ func (c *CompressedPaletted) Bounds() image.Rectangle { return c.Rect }
 
 // At returns colour at the specified coords.
 func (c *CompressedPaletted) At(x, y int) color.Color {
-	if c.Palette == nil {
+	if len(c.Palette) == 0 {
 		return nil
 	}
 
@@ -219,7 +219,7 @@ func (c *CompressedPalettedAlpha) Bounds() image.Rectangle { return c.Rect }
 
 // At returns colour at the specified coords.
 func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
-	if c.Palette == nil {
+	if len(c.Palette) == 0 {
 		return nil
 	}
 
-- 
2.43.0


From 9c01a48d9fde9b5a0deff25ba54d4505e66e0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 43/64] fix: deferred images can be read concurrently

---
 xcf/compressed.go   | 28 +++++++++++++++++++++++----
 xcf/image_decode.go | 46 +++++++++++++++++++++++++++++++++------------
 2 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/xcf/compressed.go b/xcf/compressed.go
index 71e5e9b..28922a2 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -5,6 +5,7 @@ import (
 	"image"
 	"image/color"
 	"io"
+	"sync"
 
 	"vimagination.zapto.org/byteio"
 	"vimagination.zapto.org/limage/lcolor"
@@ -12,6 +13,7 @@ import (
 )
 
 type compressedImage struct {
+	mutex        sync.Mutex // guards tile and decompressed
 	tiles        [][][]byte
 	width        int
 	tile         int
@@ -53,7 +55,7 @@ type CompressedRGB struct {
 }
 
 // ColorModel returns the RGB Color Model.
-func (CompressedRGB) ColorModel() color.Model { return lcolor.RGBModel }
+func (*CompressedRGB) ColorModel() color.Model { return lcolor.RGBModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedRGB) Bounds() image.Rectangle { return c.Rect }
@@ -67,6 +69,9 @@ func (c *CompressedRGB) RGBAt(x, y int) lcolor.RGB {
 		return lcolor.RGB{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return lcolor.RGB{
@@ -84,7 +89,7 @@ type CompressedNRGBA struct {
 }
 
 // ColorModel returns the NRGBA Color Model.
-func (CompressedNRGBA) ColorModel() color.Model { return color.NRGBAModel }
+func (*CompressedNRGBA) ColorModel() color.Model { return color.NRGBAModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedNRGBA) Bounds() image.Rectangle { return c.Rect }
@@ -98,6 +103,9 @@ func (c *CompressedNRGBA) NRGBAAt(x, y int) color.NRGBA {
 		return color.NRGBA{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return color.NRGBA{
@@ -116,7 +124,7 @@ type CompressedGray struct {
 }
 
 // ColorModel returns the Gray Color Model.
-func (CompressedGray) ColorModel() color.Model { return color.GrayModel }
+func (*CompressedGray) ColorModel() color.Model { return color.GrayModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedGray) Bounds() image.Rectangle { return c.Rect }
@@ -130,6 +138,9 @@ func (c *CompressedGray) GrayAt(x, y int) color.Gray {
 		return color.Gray{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return color.Gray{
@@ -145,7 +156,7 @@ type CompressedGrayAlpha struct {
 }
 
 // ColorModel returns the Gray Alpha Color Model.
-func (CompressedGrayAlpha) ColorModel() color.Model { return lcolor.GrayAlphaModel }
+func (*CompressedGrayAlpha) ColorModel() color.Model { return lcolor.GrayAlphaModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedGrayAlpha) Bounds() image.Rectangle { return c.Rect }
@@ -159,6 +170,9 @@ func (c *CompressedGrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 		return lcolor.GrayAlpha{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return lcolor.GrayAlpha{
@@ -191,6 +205,9 @@ func (c *CompressedPaletted) At(x, y int) color.Color {
 		return c.Palette[0]
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 	i := c.decompressed[p]
 	r, g, b, _ := c.Palette[i].RGBA()
@@ -227,6 +244,9 @@ func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
 		return color.NRGBA{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 	r, g, b, _ := c.Palette[c.decompressed[p]].RGBA()
 
diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 7c4724f..81d4351 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -206,11 +206,7 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 }
 
 func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width, height uint32, tiles []uint64) image.Image {
-	ci := compressedImage{
-		tiles: make([][][]byte, 0, len(tiles)),
-		width: int(width),
-		tile:  -1,
-	}
+	tileData := make([][][]byte, 0, len(tiles))
 
 	buf := make(memio.Buffer, 0, 64*64*4)
 
@@ -253,23 +249,49 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 				ts = append(ts, b)
 			}
 
-			ci.tiles = append(ci.tiles, ts)
+			tileData = append(tileData, ts)
 		}
 	}
 
+	set := func(c *compressedImage) { c.tiles, c.width, c.tile = tileData, int(width), -1 }
+
 	switch mode {
 	case 0: // rgb
-		return &CompressedRGB{ci, r}
+		im := &CompressedRGB{Rect: r}
+
+		set(&im.compressedImage)
+
+		return im
 	case 1: // rgba
-		return &CompressedNRGBA{ci, r}
+		im := &CompressedNRGBA{Rect: r}
+
+		set(&im.compressedImage)
+
+		return im
 	case 2: // gray
-		return &CompressedGray{ci, r}
+		im := &CompressedGray{Rect: r}
+
+		set(&im.compressedImage)
+
+		return im
 	case 3: // gray + alpha
-		return &CompressedGrayAlpha{ci, r}
+		im := &CompressedGrayAlpha{Rect: r}
+
+		set(&im.compressedImage)
+
+		return im
 	case 4: // indexed
-		return &CompressedPaletted{ci, r, color.Palette(d.palette)}
+		im := &CompressedPaletted{Rect: r, Palette: color.Palette(d.palette)}
+
+		set(&im.compressedImage)
+
+		return im
 	case 5: // indexed + alpha
-		return &CompressedPalettedAlpha{ci, r, d.palette}
+		im := &CompressedPalettedAlpha{Rect: r, Palette: d.palette}
+
+		set(&im.compressedImage)
+
+		return im
 	default:
 		return nil
 	}
-- 
2.43.0


From 045a6cc40aa103dab96b889b560fa12b24c65ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 44/64] fix: clip layers to the canvas without shifting their
 pixels

---
 xcf/decoder.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index dca9657..a4f8879 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -169,13 +169,19 @@ func decodeImage(r io.ReaderAt, decompress bool) (limage.Image, error) {
 		return nil, dr.Err
 	}
 
-	groups, err := makeGroups(layers, bounds)
+	groups, err := makeGroups(layers)
 	if err != nil {
 		return nil, err
 	}
 
 	im := makeImage(groups)
 
+	for n, l := range im {
+		if !l.LayerBounds.In(bounds) {
+			im[n] = l.SubImageLayer(bounds)
+		}
+	}
+
 	return im, nil
 }
 
@@ -377,7 +383,7 @@ func readLayers(dr reader, r io.ReaderAt, layerptrs []uint64, baseType uint32, p
 	return layers
 }
 
-func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset, error) {
+func makeGroups(layers []layer) (map[string]*groupOffset, error) {
 	var (
 		groups = make(map[string]*groupOffset)
 		n      rune
@@ -413,7 +419,7 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 			}
 		}
 
-		l.LayerBounds = l.LayerBounds.Intersect(bounds).Sub(image.Pt(g.OffsetX, g.OffsetY))
+		l.LayerBounds = l.LayerBounds.Sub(image.Pt(g.OffsetX, g.OffsetY))
 		g.Group = append(g.Group, l.Layer)
 	}
 
-- 
2.43.0


From 14b7495481352105b26b3134686bf6a4865ba46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 45/64] fix: groups and text layers can have masks

---
 xcf/decoder.go      |  9 ++++++++-
 xcf/encoder.go      | 11 ++++++++++-
 xcf/layer_encode.go |  2 +-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index a4f8879..06b7829 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -439,7 +439,14 @@ func makeImage(groups map[string]*groupOffset) limage.Image {
 		if g.Parent == nil {
 			im = ng
 		} else {
-			(*g.Parent)[g.Offset].Image = ng
+			l := &(*g.Parent)[g.Offset]
+
+			if m, ok := l.Image.(limage.MaskedImage); ok {
+				m.Image = ng
+				l.Image = m
+			} else {
+				l.Image = ng
+			}
 		}
 	}
 
diff --git a/xcf/encoder.go b/xcf/encoder.go
index 2a3e9b2..66d3a22 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -115,7 +115,16 @@ func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
 	for _, l := range g {
-		switch g := l.Image.(type) {
+		im := l.Image
+
+		switch m := im.(type) {
+		case limage.MaskedImage:
+			im = m.Image
+		case *limage.MaskedImage:
+			im = m.Image
+		}
+
+		switch g := im.(type) {
 		case limage.Image:
 			count += layerCount(g)
 		case *limage.Image:
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 22c49e2..725c3db 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -34,7 +34,7 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 		img = im.Image
 	}
 
-	switch i := im.Image.(type) {
+	switch i := img.(type) {
 	case limage.Text:
 		text = i.TextData
 	case *limage.Text:
-- 
2.43.0


From 0df8f1f898851a3f3423006ccd021a3f53fe4846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 46/64] fix: write plain images, images away from the origin
 and layers whose content has another size

---
 xcf/channel.go      | 6 ++----
 xcf/encoder.go      | 9 +++++++--
 xcf/image_encode.go | 4 +---
 xcf/layer_encode.go | 8 ++++----
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index 75775b0..8b0e850 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -53,9 +53,7 @@ func (d *decoder) skipProperties() {
 	}
 }
 
-func (e *encoder) WriteChannel(c *image.Gray) {
-	b := c.Bounds()
-
+func (e *encoder) WriteChannel(c *image.Gray, b image.Rectangle) {
 	e.WriteUint32(uint32(b.Dx()))
 	e.WriteUint32(uint32(b.Dy()))
 	e.WriteString("")
@@ -64,5 +62,5 @@ func (e *encoder) WriteChannel(c *image.Gray) {
 	e.WriteUint32(0)
 
 	e.WriteUint32(uint32(e.pos) + 4) // hptr
-	e.WriteImage(c, (*encoder).grayToBuf, 1)
+	e.WriteImage(c, b, (*encoder).grayToBuf, 1)
 }
diff --git a/xcf/encoder.go b/xcf/encoder.go
index 66d3a22..49a4c8e 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -100,12 +100,17 @@ func Encode(w io.WriterAt, im image.Image) error {
 		pw := e.ReservePointerList(layerCount(im))
 
 		e.WriteUint32(0) // no channels
-		e.WriteLayers(im, 0, 0, make([]uint32, 0, 32), pw)
+		e.WriteLayers(im, int32(-b.Min.X), int32(-b.Min.Y), make([]uint32, 0, 32), pw)
 	default:
 		pw := e.ReservePointerList(1)
 
 		e.WriteUint32(0) // no channels
-		e.WriteLayer(limage.Layer{Image: im}, 0, 0, []uint32{}, pw)
+
+		if b.Min != (image.Point{}) { // move to the origin
+			im = limage.Layer{LayerBounds: b.Sub(b.Min.Mul(2)), Image: im}
+		}
+
+		e.WriteLayer(limage.Layer{LayerBounds: b.Sub(b.Min), Image: im}, 0, 0, []uint32{}, pw)
 	}
 
 	return e.Err
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 0d58042..2357c60 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -7,9 +7,7 @@ import (
 	"vimagination.zapto.org/limage/lcolor"
 )
 
-func (e *encoder) WriteImage(im image.Image, colourFunc colourBufFunc, colourChannels uint8) {
-	bounds := im.Bounds()
-
+func (e *encoder) WriteImage(im image.Image, bounds image.Rectangle, colourFunc colourBufFunc, colourChannels uint8) {
 	dx := int64(bounds.Dx())
 	dy := int64(bounds.Dy())
 
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 725c3db..5dc2213 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -47,7 +47,7 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 
 	writeProperties(e, im, offsetX, offsetY, groups, group, text)
 	e.WriteUint32(0)
-	writeLayer(e, img, mask)
+	writeLayer(e, img, mask, image.Rectangle{Max: im.LayerBounds.Size()})
 
 	if group != nil {
 		e.WriteLayers(group, offsetX, offsetY, groups, pw)
@@ -186,16 +186,16 @@ func modeID(mode limage.Composite) uint32 {
 	}
 }
 
-func writeLayer(e *encoder, img image.Image, mask *image.Gray) {
+func writeLayer(e *encoder, img image.Image, mask *image.Gray, bounds image.Rectangle) {
 	ptrs := e.ReservePointers(2)
 
 	ptrs.WritePointer(uint32(e.pos))
 
-	e.WriteImage(img, e.colourFunc, e.colourChannels)
+	e.WriteImage(img, bounds, e.colourFunc, e.colourChannels)
 
 	if mask != nil {
 		ptrs.WritePointer(uint32(e.pos))
-		e.WriteChannel(mask)
+		e.WriteChannel(mask, bounds)
 	} else {
 		ptrs.WritePointer(0)
 	}
-- 
2.43.0


From 89d1af769f6b47271046167993682f51eb8500ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 47/64] fix: the alpha of paletted pixels does not change their
 colour

---
 xcf/image_encode.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 2357c60..9b7655c 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -84,8 +84,7 @@ func (e *encoder) grayToBuf(c color.Color) {
 }
 
 func (e *encoder) paletteAlphaToBuf(c color.Color) {
-	r, g, b, a := c.RGBA()
-	i := e.colourPalette.Index(lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)})
-	e.colourBuf[0] = uint8(i)
-	e.colourBuf[1] = uint8(a)
+	_, _, _, a := c.RGBA()
+	e.colourBuf[0] = uint8(e.colourPalette.Index(c))
+	e.colourBuf[1] = uint8(a >> 8)
 }
-- 
2.43.0


From 9982b243f1c0d8fad055df7c57fe29a7e05aebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 48/64] fix: write the code of the Luminance mode, not Color
 Erase for Luminosity

---
 xcf/layer_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 5dc2213..9cdc9fa 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -153,8 +153,6 @@ func modeID(mode limage.Composite) uint32 {
 		return 20
 	case limage.CompositeGrainMerge:
 		return 21
-	case limage.CompositeLuminosity:
-		return 22
 	case limage.CompositeColorErase:
 		return 22
 	case limage.CompositeChroma:
@@ -173,6 +171,8 @@ func modeID(mode limage.Composite) uint32 {
 		return 52
 	case limage.CompositeLinearBurn:
 		return 53
+	case limage.CompositeLuminance:
+		return 56
 	case limage.CompositeErase:
 		return 58
 	case limage.CompositeMerge:
-- 
2.43.0


From 7ff409619becdc35d137d2ecc931328890b475cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 49/64] fix: nothing is written after a failed write, short
 writes are failures

---
 xcf/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcf/writer.go b/xcf/writer.go
index f30e8e4..a6e7a54 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -51,7 +51,7 @@ type pointerWriter struct {
 }
 
 func (p *pointerWriter) WritePointer(ptr uint32) {
-	if p.toWrite > 0 {
+	if p.toWrite > 0 && p.obw.Err == nil {
 		p.bw.WriteUint32(ptr)
 		p.toWrite--
 
@@ -95,6 +95,10 @@ func (w *writerAtWriter) Write(p []byte) (int, error) {
 	n, err := w.WriteAt(p, w.pos)
 	w.pos += int64(n)
 
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+
 	return n, err
 }
 
-- 
2.43.0


From 412728e60d3fcd51c023af5669b6f4ed5b35c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 50/64] fix: malformed text descriptions are errors, not
 crashes, endless loops or parts of a text

---
 xcf/parasites.go | 38 +++++++++++++++++++++++---------------
 xcf/text.go      |  4 +++-
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index 8aef135..808528b 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -83,13 +83,11 @@ func (ps *parasite) Parse() ([]tag, error) {
 	tags := make([]tag, 0, 32)
 
 	for {
-		tag, err := readTag(&p)
-		if err != nil {
-			if !errors.Is(p.Err, io.EOF) {
-				return nil, err
-			}
-
+		tag, err := readTag(&p, maxTagDepth)
+		if errors.Is(err, io.EOF) {
 			break
+		} else if err != nil {
+			return nil, err
 		}
 
 		tags = append(tags, tag)
@@ -116,13 +114,15 @@ const (
 	tokenValueNumber
 )
 
+const maxTagDepth = 64
+
 // Tag represents a single tag from a parsed Parasite.
 type tag struct {
 	Name   string
 	Values []interface{}
 }
 
-func readTag(p *parser.Parser) (tag, error) {
+func readTag(p *parser.Parser, depth int) (tag, error) {
 	if p.Accept(parser.TokenDone) {
 		return tag{}, io.EOF
 	}
@@ -167,7 +167,11 @@ func readTag(p *parser.Parser) (tag, error) {
 
 			return tg, nil
 		case tokenOpen:
-			ttg, err := readTag(p)
+			if depth == 0 {
+				return tag{}, ErrInvalidParasites
+			}
+
+			ttg, err := readTag(p, depth-1)
 
 			p.TokeniserState(valueTK)
 
@@ -176,8 +180,6 @@ func readTag(p *parser.Parser) (tag, error) {
 			}
 
 			tg.Values = append(tg.Values, ttg)
-		case parser.TokenDone:
-			return tag{}, io.EOF
 		default:
 			return tag{}, ErrInvalidParasites
 		}
@@ -264,6 +266,12 @@ func valueTK(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 		}, valueTK
 	}
 
+	if !t.Accept(valName) {
+		t.Err = ErrInvalidParasites
+
+		return t.Error()
+	}
+
 	t.AcceptRun(valName)
 
 	return parser.Token{
@@ -276,20 +284,20 @@ func quotedString(t *parser.Tokeniser) string {
 	t.Accept(quoted)
 	t.Get()
 
-	var s string
+	var s strings.Builder
 
 	for {
 		t.ExceptRun(quoted + "\\")
 
-		s += t.Get()
+		s.WriteString(t.Get())
 
 		if t.Accept("\\") {
 			c := string(t.Peek())
 			switch c {
 			case "\"", "\\":
-				s += c
+				s.WriteString(c)
 			default:
-				s += "\\" + c
+				s.WriteString("\\" + c)
 			}
 
 			t.Accept(c)
@@ -304,7 +312,7 @@ func quotedString(t *parser.Tokeniser) string {
 	t.Accept(quoted)
 	t.Get()
 
-	return s
+	return s.String()
 }
 
 // Errors.
diff --git a/xcf/text.go b/xcf/text.go
index 8344279..f2220ba 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -74,7 +74,9 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 	for _, tg := range tags {
 		switch tg.Name {
 		case "text":
-			defaultText.Data, _ = tg.Values[0].(string)
+			if len(tg.Values) == 1 {
+				defaultText.Data, _ = tg.Values[0].(string)
+			}
 		case "markup":
 			if len(tg.Values) == 1 {
 				textData, _ = tg.Values[0].(string)
-- 
2.43.0


From 1e5a90ec7c17225896086805ef557d8248f780dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 51/64] fix: write and read the colours of text

---
 xcf/text.go | 78 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index f2220ba..4c1362e 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -98,11 +98,11 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 			if len(tg.Values) == 1 {
 				t, _ := tg.Values[0].(tag)
 
-				if t.Name == "color-rgb" && len(t.Values) != 3 {
+				if t.Name == "color-rgb" && len(t.Values) == 3 {
 					r, _ := t.Values[0].(float64)
 					g, _ := t.Values[1].(float64)
 					b, _ := t.Values[2].(float64)
-					defaultText.ForeColor = lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)}
+					defaultText.ForeColor = lcolor.RGB{R: opacityByte(float32(r)), G: opacityByte(float32(g)), B: opacityByte(float32(b))}
 				}
 			}
 		case "justify":
@@ -126,26 +126,12 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 			case "font":
 				nt.Font = a.Value
 			case "foreground":
-				if len(a.Value) == 7 && a.Value[0] == '#' {
-					n, err := strconv.ParseUint(a.Value[1:], 16, 32)
-					if err != nil {
-						return nt, err
-					}
-
-					nt.ForeColor = color.RGBA{uint8(n >> 16), uint8((n >> 8) & 255), uint8(n & 255), 255}
-				} else if len(a.Value) == 4 && a.Value[0] == '#' {
-					n, err := strconv.ParseUint(a.Value[1:], 16, 32)
-					if err != nil {
-						return nt, err
-					}
-
-					r := (n >> 4) & 240
-					r |= r >> 4
-					g := n & 240
-					g |= g >> 4
-					b := n & 15
-					b |= b << 4
-					nt.ForeColor = color.RGBA{uint8(r), uint8(g), uint8(b), 255}
+				if err := parseColour(a.Value, &nt.ForeColor); err != nil {
+					return nt, err
+				}
+			case "background":
+				if err := parseColour(a.Value, &nt.BackColor); err != nil {
+					return nt, err
 				}
 			case "size":
 				s, err := strconv.ParseUint(a.Value, 10, 32)
@@ -183,6 +169,32 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 	return nt, nil
 }
 
+func parseColour(s string, c *color.Color) error {
+	if len(s) == 7 && s[0] == '#' {
+		n, err := strconv.ParseUint(s[1:], 16, 32)
+		if err != nil {
+			return err
+		}
+
+		*c = color.RGBA{uint8(n >> 16), uint8((n >> 8) & 255), uint8(n & 255), 255}
+	} else if len(s) == 4 && s[0] == '#' {
+		n, err := strconv.ParseUint(s[1:], 16, 32)
+		if err != nil {
+			return err
+		}
+
+		r := (n >> 4) & 240
+		r |= r >> 4
+		g := n & 240
+		g |= g >> 4
+		b := n & 15
+		b |= b << 4
+		*c = color.RGBA{uint8(r), uint8(g), uint8(b), 255}
+	}
+
+	return nil
+}
+
 type quoteWriter struct {
 	*bytes.Buffer
 }
@@ -230,21 +242,21 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		data = append(data, "</markup>\")\n"...)
 	}
 
-	r, g, b, _ := base.ForeColor.RGBA()
+	fore := textColour(base.ForeColor)
 
 	data = fmt.Appendf(data, "(font %q)\n"+
 		"(font-size %d.000000000)\n"+
 		"(font-size-units pixels)\n"+
 		"(antialias yes)\n"+
 		"(base-direction ltr)\n"+
-		"(color (color-rgb %d.000000 %d.000000 %d.000000))\n"+
+		"(color (color-rgb %f %f %f))\n"+
 		"(justify left)\n"+
 		"(box-mode dynamic)\n"+
 		"(box-width %d.000000)\n"+
 		"(box-height %d.000000)\n"+
 		"(box-unit pixels)\n"+
 		"(hinting yes)\n"+
-		"\x00", base.Font, base.Size, r>>8, g>>8, b>>8, dx, dy)
+		"\x00", base.Font, base.Size, float64(fore.R)/255, float64(fore.G)/255, float64(fore.B)/255, dx, dy)
 
 	// write base
 
@@ -260,16 +272,24 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 	e.Write(data)
 }
 
+func textColour(c color.Color) color.NRGBA {
+	if c == nil {
+		return color.NRGBA{}
+	}
+
+	return color.NRGBAModel.Convert(c).(color.NRGBA)
+}
+
 func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	closers := make([]string, 0)
 
-	if r, g, b, _ := td.ForeColor.RGBA(); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span foreground=\\\"#%02X%02X%02X\\\">", r>>8, g>>8, b>>8)
+	if c := textColour(td.ForeColor); c.R != 0 || c.G != 0 || c.B != 0 {
+		data = fmt.Appendf(data, "<span foreground=\\\"#%02X%02X%02X\\\">", c.R, c.G, c.B)
 		closers = append(closers, "</span>")
 	}
 
-	if r, g, b, _ := td.BackColor.RGBA(); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span background=\\\"#%02X%02X%02X\\\">", r, g, b)
+	if c := textColour(td.BackColor); c.A != 0 {
+		data = fmt.Appendf(data, "<span background=\\\"#%02X%02X%02X\\\">", c.R, c.G, c.B)
 		closers = append(closers, "</span>")
 	}
 
-- 
2.43.0


From 181630361514baa0d163667b9c58a8c7ee627568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 52/64] fix: large sizes, spacings and rises of text

---
 xcf/text.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 4c1362e..324a7a4 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -134,26 +134,26 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 					return nt, err
 				}
 			case "size":
-				s, err := strconv.ParseUint(a.Value, 10, 32)
+				s, err := strconv.ParseUint(a.Value, 10, 42)
 				if err != nil {
 					return nt, err
 				}
 
-				nt.Size = uint32(s) >> 10
+				nt.Size = uint32(s >> 10)
 			case "letter_spacing":
-				ls, err := strconv.ParseUint(a.Value, 10, 32)
+				ls, err := strconv.ParseUint(a.Value, 10, 42)
 				if err != nil {
 					return nt, err
 				}
 
-				nt.LetterSpacing = uint32(ls) >> 10
+				nt.LetterSpacing = uint32(ls >> 10)
 			case "rise":
-				r, err := strconv.ParseUint(a.Value, 10, 32)
+				r, err := strconv.ParseUint(a.Value, 10, 42)
 				if err != nil {
 					return nt, err
 				}
 
-				nt.Rise = uint32(r) >> 10
+				nt.Rise = uint32(r >> 10)
 			}
 		}
 	case "b":
@@ -319,17 +319,17 @@ func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	}
 
 	if td.LetterSpacing != 0 {
-		data = fmt.Appendf(data, "<span letter_spacing=\\\"%d\\\">", td.LetterSpacing<<10)
+		data = fmt.Appendf(data, "<span letter_spacing=\\\"%d\\\">", uint64(td.LetterSpacing)<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Size != 18 {
-		data = fmt.Appendf(data, "<span size=\\\"%d\\\">", td.Size<<10)
+		data = fmt.Appendf(data, "<span size=\\\"%d\\\">", uint64(td.Size)<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Rise != 0 {
-		data = fmt.Appendf(data, "<span rise=\\\"%d\\\">", td.Rise<<10)
+		data = fmt.Appendf(data, "<span rise=\\\"%d\\\">", uint64(td.Rise)<<10)
 		closers = append(closers, "</span>")
 	}
 
-- 
2.43.0


From 709ea3f304d38e6a517d8555d82677bb99c9b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 53/64] fix: quote and escape text, keep the style of single
 pieces of text

---
 xcf/text.go | 57 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 324a7a4..7bc6a65 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -5,7 +5,6 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
-	"html"
 	"image/color"
 	"io"
 	"strconv"
@@ -218,33 +217,53 @@ func (q *quoteWriter) WriteString(s string) (int, error) {
 	return len(s), nil
 }
 
+// quote returns the string as it is written in a parasite.
+func quote(s string) string {
+	var buf bytes.Buffer
+
+	buf.WriteByte('"')
+
+	q := quoteWriter{&buf}
+	q.WriteString(s)
+
+	buf.WriteByte('"')
+
+	return buf.String()
+}
+
+// isPlain determines whether the text can be written without any markup.
+func isPlain(td limage.TextDatum) bool {
+	return !td.Bold && !td.Italic && !td.Underline && !td.Strikethrough && td.LetterSpacing == 0 && td.Rise == 0 && textColour(td.BackColor).A == 0
+}
+
 func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 	var (
 		data []byte
 		base limage.TextDatum
 	)
 
-	if len(text) == 1 {
+	if len(text) == 1 && isPlain(text[0]) {
 		base = text[0]
-		data = fmt.Appendf(data, "(text %q)\n", base.Data)
+		data = fmt.Appendf(data, "(text %s)\n", quote(base.Data))
 	} else {
 		base = limage.TextDatum{
 			Font: "Sans",
 			Size: 18,
 		}
 
-		data = append(data, "(markup \"<markup>"...)
+		markup := []byte("<markup>")
 
 		for _, td := range text {
-			data = writeTextMarkup(td, data)
+			markup = writeTextMarkup(td, markup)
 		}
 
-		data = append(data, "</markup>\")\n"...)
+		markup = append(markup, "</markup>"...)
+		data = fmt.Appendf(data, "(markup %s)\n", quote(string(markup)))
 	}
 
 	fore := textColour(base.ForeColor)
 
-	data = fmt.Appendf(data, "(font %q)\n"+
+	data = fmt.Appendf(data, "(font %s)\n"+
 		"(font-size %d.000000000)\n"+
 		"(font-size-units pixels)\n"+
 		"(antialias yes)\n"+
@@ -256,7 +275,7 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		"(box-height %d.000000)\n"+
 		"(box-unit pixels)\n"+
 		"(hinting yes)\n"+
-		"\x00", base.Font, base.Size, float64(fore.R)/255, float64(fore.G)/255, float64(fore.B)/255, dx, dy)
+		"\x00", quote(base.Font), base.Size, float64(fore.R)/255, float64(fore.G)/255, float64(fore.B)/255, dx, dy)
 
 	// write base
 
@@ -280,21 +299,29 @@ func textColour(c color.Color) color.NRGBA {
 	return color.NRGBAModel.Convert(c).(color.NRGBA)
 }
 
+func escapeXML(s string) string {
+	var buf bytes.Buffer
+
+	xml.EscapeText(&buf, []byte(s)) //nolint:errcheck
+
+	return buf.String()
+}
+
 func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	closers := make([]string, 0)
 
 	if c := textColour(td.ForeColor); c.R != 0 || c.G != 0 || c.B != 0 {
-		data = fmt.Appendf(data, "<span foreground=\\\"#%02X%02X%02X\\\">", c.R, c.G, c.B)
+		data = fmt.Appendf(data, "<span foreground=\"#%02X%02X%02X\">", c.R, c.G, c.B)
 		closers = append(closers, "</span>")
 	}
 
 	if c := textColour(td.BackColor); c.A != 0 {
-		data = fmt.Appendf(data, "<span background=\\\"#%02X%02X%02X\\\">", c.R, c.G, c.B)
+		data = fmt.Appendf(data, "<span background=\"#%02X%02X%02X\">", c.R, c.G, c.B)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Font != "Sans" {
-		data = fmt.Appendf(data, "<span font=%q>", td.Font)
+		data = fmt.Appendf(data, "<span font=\"%s\">", escapeXML(td.Font))
 		closers = append(closers, "</span>")
 	}
 
@@ -319,21 +346,21 @@ func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	}
 
 	if td.LetterSpacing != 0 {
-		data = fmt.Appendf(data, "<span letter_spacing=\\\"%d\\\">", uint64(td.LetterSpacing)<<10)
+		data = fmt.Appendf(data, "<span letter_spacing=\"%d\">", uint64(td.LetterSpacing)<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Size != 18 {
-		data = fmt.Appendf(data, "<span size=\\\"%d\\\">", uint64(td.Size)<<10)
+		data = fmt.Appendf(data, "<span size=\"%d\">", uint64(td.Size)<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Rise != 0 {
-		data = fmt.Appendf(data, "<span rise=\\\"%d\\\">", uint64(td.Rise)<<10)
+		data = fmt.Appendf(data, "<span rise=\"%d\">", uint64(td.Rise)<<10)
 		closers = append(closers, "</span>")
 	}
 
-	data = fmt.Appendf(data, "%q", html.EscapeString(td.Data))
+	data = append(data, escapeXML(td.Data)...)
 
 	for i := len(closers) - 1; i >= 0; i-- {
 		data = append(data, closers[i]...)
-- 
2.43.0


From 8c68fee9910a582ad904d2d4409590bdca50e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 54/64] fix: read the escapes GIMP writes in text

---
 xcf/parasites.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index 808528b..4fa89ad 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -102,6 +102,7 @@ const (
 	chars      = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 	valName    = chars + "-"
 	digit      = "1234567890"
+	octal      = "01234567"
 	quoted     = "\""
 	whitespace = "\n\r "
 )
@@ -292,10 +293,30 @@ func quotedString(t *parser.Tokeniser) string {
 		s.WriteString(t.Get())
 
 		if t.Accept("\\") {
+			t.Get()
+
+			t.AcceptRun(octal)
+
+			if digits := t.Get(); digits != "" {
+				writeOctal(&s, digits)
+
+				continue
+			}
+
 			c := string(t.Peek())
 			switch c {
 			case "\"", "\\":
 				s.WriteString(c)
+			case "b":
+				s.WriteByte('\b')
+			case "f":
+				s.WriteByte('\f')
+			case "n":
+				s.WriteByte('\n')
+			case "r":
+				s.WriteByte('\r')
+			case "t":
+				s.WriteByte('\t')
 			default:
 				s.WriteString("\\" + c)
 			}
@@ -315,6 +336,20 @@ func quotedString(t *parser.Tokeniser) string {
 	return s.String()
 }
 
+// writeOctal writes the byte given by up to three octal digits, and whatever
+// follows them.
+func writeOctal(s *strings.Builder, digits string) {
+	n := len(digits)
+	if n > 3 {
+		n = 3
+	}
+
+	b, _ := strconv.ParseUint(digits[:n], 8, 16) //nolint:errcheck
+
+	s.WriteByte(byte(b))
+	s.WriteString(digits[n:])
+}
+
 // Errors.
 var (
 	ErrInvalidParasites = errors.New("invalid parasites layout")
-- 
2.43.0


From 17d6e8f2f9ba068a32203d682dd2796cb4ce6d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 55/64] fix: do not trust the stated length of an item path

---
 xcf/layer_decode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 84f789a..1491b33 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -246,10 +246,10 @@ func (l *layer) readItemPath(d *decoder, plength uint32) {
 		d.SetError(ErrInvalidItemPathLength)
 	}
 
-	l.itemPath = make([]rune, plength>>2)
+	l.itemPath = nil
 
-	for i := uint32(0); i < plength>>2; i++ {
-		l.itemPath[i] = rune(d.ReadUint32())
+	for i := uint32(0); i < plength>>2 && d.Err == nil; i++ {
+		l.itemPath = append(l.itemPath, rune(d.ReadUint32()))
 	}
 }
 
-- 
2.43.0


From 8baecf7dfd9ca53c5f0fbbd4f2f9f56342bc073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:35 +0000
Subject: [PATCH 56/64] fix: skip guides at once, whatever number of them is
 stated

---
 xcf/decoder.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 06b7829..98e7476 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -279,16 +279,11 @@ PropertyLoop:
 				return nil, 0, ErrUnknownCompression
 			}
 		case propGuides:
-			ng := plength / 5
-
-			if ng*5 != plength {
+			if plength%5 != 0 {
 				return nil, 0, ErrInvalidGuideLength
 			}
 
-			for n := uint32(0); n < ng; n++ {
-				dr.SkipUint32()
-				dr.SkipByte()
-			}
+			dr.Skip(plength)
 		case propPaths:
 			dr.SkipPaths()
 		case propResolution:
-- 
2.43.0


From 4d928d7311fdd45f8078ef384077b9c028b1fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:35 +0000
Subject: [PATCH 57/64] fix: refuse two groups with the same path, of which one
 was left without an image

---
 xcf/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 98e7476..b593871 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -405,6 +405,10 @@ func makeGroups(layers []layer) (map[string]*groupOffset, error) {
 		}
 
 		if l.group {
+			if groups[string(l.itemPath)] != nil {
+				return nil, ErrInvalidGroup
+			}
+
 			groups[string(l.itemPath)] = &groupOffset{
 				Group:   make(limage.Image, 0, 32),
 				OffsetX: l.LayerBounds.Min.X,
-- 
2.43.0


From 5312bf927f7fa3d733c6a3b1e9796739573124a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 58/64] fix: tell apart groups whose item paths are not valid
 code points

---
 xcf/decoder.go      | 23 ++++++++++++++++++-----
 xcf/layer_decode.go |  4 ++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index b593871..279c35e 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -381,7 +381,7 @@ func readLayers(dr reader, r io.ReaderAt, layerptrs []uint64, baseType uint32, p
 func makeGroups(layers []layer) (map[string]*groupOffset, error) {
 	var (
 		groups = make(map[string]*groupOffset)
-		n      rune
+		n      uint32
 		alpha  = true
 	)
 
@@ -395,21 +395,23 @@ func makeGroups(layers []layer) (map[string]*groupOffset, error) {
 		alpha = l.alpha
 
 		if len(l.itemPath) == 0 {
-			l.itemPath = []rune{n}
+			l.itemPath = []uint32{n}
 			n++
 		}
 
-		g := groups[string(l.itemPath[:len(l.itemPath)-1])]
+		path := groupKey(l.itemPath)
+
+		g := groups[path[:len(path)-4]]
 		if g == nil {
 			return nil, ErrInvalidGroup
 		}
 
 		if l.group {
-			if groups[string(l.itemPath)] != nil {
+			if groups[path] != nil {
 				return nil, ErrInvalidGroup
 			}
 
-			groups[string(l.itemPath)] = &groupOffset{
+			groups[path] = &groupOffset{
 				Group:   make(limage.Image, 0, 32),
 				OffsetX: l.LayerBounds.Min.X,
 				OffsetY: l.LayerBounds.Min.Y,
@@ -425,6 +427,17 @@ func makeGroups(layers []layer) (map[string]*groupOffset, error) {
 	return groups, nil
 }
 
+// groupKey returns the item path in a form that can be used as a map key.
+func groupKey(path []uint32) string {
+	key := make([]byte, 0, 4*len(path))
+
+	for _, p := range path {
+		key = append(key, byte(p>>24), byte(p>>16), byte(p>>8), byte(p))
+	}
+
+	return string(key)
+}
+
 func makeImage(groups map[string]*groupOffset) limage.Image {
 	var im limage.Image
 
diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 1491b33..bcaca33 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -11,7 +11,7 @@ type layer struct {
 	limage.Layer
 	alpha    bool
 	group    bool
-	itemPath []rune
+	itemPath []uint32
 }
 
 func (d *decoder) ReadLayer() layer {
@@ -249,7 +249,7 @@ func (l *layer) readItemPath(d *decoder, plength uint32) {
 	l.itemPath = nil
 
 	for i := uint32(0); i < plength>>2 && d.Err == nil; i++ {
-		l.itemPath = append(l.itemPath, rune(d.ReadUint32()))
+		l.itemPath = append(l.itemPath, d.ReadUint32())
 	}
 }
 
-- 
2.43.0


From e5e72ada1cfe93b1b79fde5f6481d8a9c077a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 59/64] fix: refuse endless operations of no length in
 run-length data, which could be read for every tile

---
 xcf/rle.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/xcf/rle.go b/xcf/rle.go
index 8e5ee55..d3ae8e8 100644
--- a/xcf/rle.go
+++ b/xcf/rle.go
@@ -11,6 +11,7 @@ import (
 type rle struct {
 	Reader     *byteio.StickyBigEndianReader
 	repeatByte bool
+	empty      bool
 	data       uint8
 	count      uint16
 }
@@ -49,6 +50,12 @@ func (r *rle) Read(p []byte) (int, error) {
 
 				return n, r.Reader.Err
 			}
+
+			if r.count == 0 && r.empty {
+				return n, ErrInvalidRLE
+			}
+
+			r.empty = r.count == 0
 		}
 
 		c := int(r.count)
@@ -155,7 +162,11 @@ func (w *writer) WriteRLEData(data []byte, run int, last byte) {
 func (d *decoder) readRLE(count int, buf *memio.Buffer) error {
 	bw := byteio.BigEndianWriter{Writer: buf}
 
+	var empty bool
+
 	for count > 0 {
+		before := count
+
 		c := d.reader.ReadUint8()
 
 		bw.WriteUint8(c)
@@ -185,6 +196,12 @@ func (d *decoder) readRLE(count int, buf *memio.Buffer) error {
 
 			io.CopyN(buf, d, 256-int64(c))
 		}
+
+		if count == before && empty {
+			return ErrInvalidRLE
+		}
+
+		empty = count == before
 	}
 
 	if count < 0 {
-- 
2.43.0


From 12ff36fc7a50b08983227ddbbb840a7736e939f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:30 +0000
Subject: [PATCH 60/64] fix: write to ORA files what layers show, not what lies
 outside of their bounds

---
 ora/encode.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index ea46178..01f4fcc 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -90,10 +90,15 @@ func toLayer(m image.Image) limage.Layer {
 	case *limage.Layer:
 		root = limage.Image{*im}
 	default:
+		b := m.Bounds()
 		root = limage.Image{{
-			LayerBounds: m.Bounds(),
+			LayerBounds: b,
 			Image:       m,
 		}}
+
+		if b.Min != (image.Point{}) {
+			root[0].Image = limage.Layer{LayerBounds: b.Sub(b.Min.Mul(2)), Image: m}
+		}
 	}
 
 	min := m.Bounds().Min
@@ -122,7 +127,7 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 		return err
 	} else if fw, err = zw.Create("mergedimage.png"); err != nil {
 		return err
-	} else if err = png.Encode(fw, flatten(m)); err != nil {
+	} else if err = png.Encode(fw, flatten(m, m.Bounds())); err != nil {
 		return err
 	} else if fw, err = zw.Create("Thumbnails/thumbnail.png"); err != nil {
 		return err
@@ -138,23 +143,32 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 		m = thumbnail{Image: m, scale: scale}
 	}
 
-	return png.Encode(fw, flatten(m))
+	return png.Encode(fw, flatten(m, m.Bounds()))
 }
 
-// flattened is an image whose colours may lie outside of the color model it
-// claims, as it takes it from just one of its parts.
+// flattened is the part within bounds of an image whose colours may lie outside
+// of the color model it claims, as it takes it from just one of its parts.
 type flattened struct {
 	image.Image
+	bounds image.Rectangle
 }
 
 func (flattened) ColorModel() color.Model {
 	return color.NRGBA64Model
 }
 
-func flatten(m image.Image) image.Image {
+func (f flattened) Bounds() image.Rectangle {
+	return f.bounds
+}
+
+func flatten(m image.Image, bounds image.Rectangle) image.Image {
 	switch m.(type) {
 	case limage.Image, *limage.Image, limage.Layer, *limage.Layer, limage.MaskedImage, *limage.MaskedImage, limage.Text, *limage.Text, thumbnail:
-		return flattened{Image: m}
+		return flattened{Image: m, bounds: bounds}
+	}
+
+	if b := m.Bounds(); b != bounds && !b.Empty() {
+		return flattened{Image: m, bounds: bounds}
 	}
 
 	return m
@@ -180,7 +194,7 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 			return 0, err
 		}
 
-		err = png.Encode(f, flatten(lim.Image))
+		err = png.Encode(f, flatten(lim.Image, image.Rectangle{Max: lim.LayerBounds.Size()}))
 		if err != nil {
 			return 0, err
 		}
@@ -189,10 +203,19 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 	return layerNum, err
 }
 
+// unseen reports whether the layer has been cropped out of view.
+func unseen(l limage.Layer) bool {
+	return l.LayerBounds.Empty() && !l.Image.Bounds().Empty()
+}
+
 func writeGroup(zw *zip.Writer, lim limage.Image, layerNum int) (int, error) {
 	var err error
 
 	for _, l := range lim {
+		if unseen(l) {
+			continue
+		}
+
 		layerNum, err = writeLayers(zw, l, layerNum)
 		if err != nil {
 			return 0, err
@@ -331,6 +354,10 @@ func writeGroupStack(e *xml.Encoder, lim limage.Image, attrs []xml.Attr, layerNu
 	}
 
 	for _, l := range lim {
+		if unseen(l) {
+			l.Image = limage.Image{}
+		}
+
 		layerNum, err = writeStack(e, l, layerNum)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 3cabfe56d2222bd8c24b99bc2998aa3d73ff20b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:32 +0000
Subject: [PATCH 61/64] fix: refuse to write XCF files that are too big for
 their pointers

---
 xcf/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcf/writer.go b/xcf/writer.go
index a6e7a54..e84d18d 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 
 	"vimagination.zapto.org/byteio"
 )
@@ -92,6 +93,10 @@ type writerAtWriter struct {
 }
 
 func (w *writerAtWriter) Write(p []byte) (int, error) {
+	if w.pos+int64(len(p)) > math.MaxUint32 { // pointers have 32 bits
+		return 0, ErrTooBig
+	}
+
 	n, err := w.WriteAt(p, w.pos)
 	w.pos += int64(n)
 
-- 
2.43.0


From db625998ca2c1a0440977cc0915a6fc657a965dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:32 +0000
Subject: [PATCH 62/64] fix: write no more colours to XCF files than pixels can
 have

---
 xcf/encoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 49a4c8e..ca4c667 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -70,6 +70,11 @@ func Encode(w io.WriterAt, im image.Image) error {
 			e.colourChannels = 4
 		}
 	}
+
+	if len(e.colourPalette) > 256 { // indices have 8 bits
+		e.colourPalette = e.colourPalette[:256]
+	}
+
 	e.WriteUint32(uint32(e.colourType))
 
 	// write property list
-- 
2.43.0


From f8f76f12f5a56444cef89d7e343e54bc1d931edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:38 +0000
Subject: [PATCH 63/64] fix: write groups that are nil to XCF files as groups,
 not as plain layers

---
 xcf/layer_encode.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 9cdc9fa..c331dd7 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -18,10 +18,11 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 	pw.WritePointer(uint32(e.pos))
 
 	var (
-		mask  *image.Gray
-		img   image.Image
-		text  limage.TextData
-		group limage.Image
+		mask    *image.Gray
+		img     image.Image
+		text    limage.TextData
+		group   limage.Image
+		isGroup bool
 	)
 
 	if mim, ok := im.Image.(limage.MaskedImage); ok {
@@ -40,21 +41,19 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 	case *limage.Text:
 		text = i.TextData
 	case limage.Image:
-		group = i
+		group, isGroup = i, true
 	case *limage.Image:
-		group = *i
+		group, isGroup = *i, true
 	}
 
-	writeProperties(e, im, offsetX, offsetY, groups, group, text)
+	writeProperties(e, im, offsetX, offsetY, groups, isGroup, text)
 	e.WriteUint32(0)
 	writeLayer(e, img, mask, image.Rectangle{Max: im.LayerBounds.Size()})
 
-	if group != nil {
-		e.WriteLayers(group, offsetX, offsetY, groups, pw)
-	}
+	e.WriteLayers(group, offsetX, offsetY, groups, pw)
 }
 
-func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups []uint32, group limage.Image, text limage.TextData) {
+func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups []uint32, isGroup bool, text limage.TextData) {
 	b := im.Bounds()
 	dx, dy := uint32(b.Dx()), uint32(b.Dy())
 
@@ -94,7 +93,7 @@ func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups
 		e.WriteText(text, dx, dy)
 	}
 
-	if group != nil {
+	if isGroup {
 		e.WriteUint32(propGroupItem)
 		e.WriteUint32(0)
 	}
-- 
2.43.0


From 166860a88dc108fcd025ed2737e85c0ba6023af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:32 +0000
Subject: [PATCH 64/64] fix: refuse OpenRaster stacks nested so deeply that the
 goroutine stack overflows

---
 ora/decode.go |  2 +-
 ora/stack.go  | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/ora/decode.go b/ora/decode.go
index d03c801..ce97648 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -179,7 +179,7 @@ func Decode(zr *zip.Reader) (limage.Image, error) {
 		}
 	}
 
-	im, err := d.readStack(image.Point{})
+	im, err := d.readStack(image.Point{}, 0)
 	if err != nil {
 		return nil, err
 	}
diff --git a/ora/stack.go b/ora/stack.go
index 22efe23..400a3a7 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -10,7 +10,14 @@ import (
 	"vimagination.zapto.org/limage"
 )
 
-func (d decoder) readStack(offset image.Point) (limage.Image, error) {
+// maxDepth is the number of stacks that may lie within one another.
+const maxDepth = 10000
+
+func (d decoder) readStack(offset image.Point, depth int) (limage.Image, error) {
+	if depth > maxDepth {
+		return nil, ErrTooDeep
+	}
+
 	i := make(limage.Image, 0, 32)
 
 Loop:
@@ -24,7 +31,7 @@ Loop:
 		case xml.StartElement:
 			switch t.Name.Local {
 			case "stack", "layer":
-				l, err := d.readLayer(t, offset)
+				l, err := d.readLayer(t, offset, depth)
 				if err != nil {
 					return nil, err
 				}
@@ -51,7 +58,7 @@ Loop:
 	return i, nil
 }
 
-func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer, error) {
+func (d decoder) readLayer(s xml.StartElement, offset image.Point, depth int) (limage.Layer, error) {
 	var l limage.Layer
 
 	source, err := processLayerAttrs(&l, s)
@@ -60,7 +67,7 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 	}
 
 	if s.Name.Local == "stack" {
-		group, err := d.readStack(offset.Add(l.LayerBounds.Min))
+		group, err := d.readStack(offset.Add(l.LayerBounds.Min), depth+1)
 		if err != nil {
 			return l, err
 		}
@@ -227,4 +234,5 @@ func (d decoder) skipTag() error {
 // Errors.
 var (
 	ErrInvalidSource = errors.New("invalid source")
+	ErrTooDeep       = errors.New("stacks nested too deeply")
 )
-- 
2.43.0

