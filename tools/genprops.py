# Writes /verif/properties.jsonl. Run after editing: python3 tools/genprops.py
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,title
    P.append(d)

p("C01","Header, image resources and configuration decode to what the file says",
 "For every well-formed PSD or PSB file, decoding reports exactly the header fields (version, channel count, size, depth, color mode), the color-mode data and every image resource (id, name, data) that the file contains, for every color mode and depth. Reading only the header gives the same answer as a full decode, and the image-format registration recognises the file and reports its size and color model.",
 ["inputs"],"every well-formed header, color-mode section and list of image resources, PSD and PSB, odd and even lengths and paddings",
 "The tests decode about 35 fixed sample files, almost all RGB 8 bit, and compare pixels, not resources; other modes, lengths and paddings never occur.",
 ["psd.go","imageres.go","colormode.go"],[("DecodeConfig","psd.go"),("readImageResource","imageres.go"),("DecodeConfig/Decode via image.RegisterFormat","psd.go")],["psd.Config","image.DecodeConfig"])
p("C02","Layer records decode to exactly the metadata the file stores",
 "For every well-formed file, each decoded layer has exactly the stored rectangle, names (legacy and Unicode), blend mode and its name, opacity, flags (visibility, transparency protection, clipping), layer-mask parameters (rectangle, real rectangle, default colors, flags, densities and feathers), section-divider settings and additional layer information, in file order.",
 ["inputs"],"every combination of layer record fields, optional sub-blocks and paddings, in PSD and PSB",
 "Tests check names and a few flags of a few files written by one program; optional sub-records (real mask, mask parameters, 'Lr16'/'Lr32' placement, odd padding) never vary.",
 ["layer.go","blendmode.go","util.go"],[("readLayer / readLayerInfo","layer.go"),("readLayerExtraData, mask data","layer.go"),("AdditionalInfoKey","layer.go")],["psd.Layer fields"])
p("C03","Layer groups decode to the tree the section dividers describe",
 "For every well-nested sequence of section dividers, the decoded layers form exactly the tree that the dividers describe: each layer appears once, under its group, in stacking order, with folder, open/closed and pass-through state. Dividers that are not well nested, and documents with two lists of layers, are reported as an error instead of losing or misplacing layers.",
 ["inputs"],"every nesting of groups (empty, deep, adjacent, unbalanced) and every kind of divider",
 "One sample file has groups; deep, empty, adjacent or malformed nestings are never tried.",
 ["layer.go"],[("buildLayerTree / divider handling","layer.go"),("SectionDividerSetting","layer.go")],["psd.PSD.Layer"])
p("C04","Layer channel data and layer pixels match the stored samples",
 "For every layer and every supported color mode, bit depth and compression (raw, PackBits, ZIP, ZIP with prediction), the decoded channels hold exactly the stored samples, masks included, and the layer's image reports, at every point, the color those samples encode.",
 ["inputs"],"every layer size, channel set, depth 8/16/32, color mode, compression per channel and sample value",
 "Samples are compared on a handful of files; no test file has 8 or 32 bit prediction or layers that mix compressions.",
 ["layer.go","compress.go","picker.go"],[("readLayerImage","layer.go"),("decodePackBits / decodeZIP / prediction","compress.go"),("pickers","picker.go")],["Layer.Channel[id].Data","Layer.Picker"])
p("C05","The merged image matches the stored samples",
 "For every supported color mode, bit depth and compression, the merged image has the document's size and reports, at every point, the color that the stored samples (and the color table of an indexed image) encode; extra alpha channels are available unchanged. A document of a mode or depth that is not supported is refused and not shown as something else.",
 ["inputs"],"every document size, mode (bitmap, gray, indexed, RGB, CMYK), depth 1/8/16/32, number of channels and compression",
 "The tests compare fixed images, all raw or RLE; widths that are not multiples of 8, extra channels and other depths occur once or never.",
 ["psd.go","picker.go","compress.go"],[("readMergedImage","psd.go"),("findPicker / pickers","picker.go")],["PSD.Picker","PSD.Channel"])
p("C06","Decompression inverts compression and reports malformed data",
 "Every valid encoding of a sample plane (any choice of PackBits runs, literals and no-op bytes; any ZIP stream; any predicted rows) decodes to exactly that plane, independently of how it was encoded. Data that is damaged or runs past its row or stream is reported as an error or affects no other row, and the verdict never depends on the number of CPUs.",
 ["inputs","configurations"],"every plane and every valid encoding of it; every damaged PackBits row or ZIP stream",
 "The unit test has one PackBits example; other encoders' choices, split runs, no-ops and broken streams are not tried.",
 ["compress.go","compress_other.go","compress_wasm_js.go"],[("decodePackBits / decodePackBitsPerLine","compress.go"),("decodeZLIB, prediction","compress.go")])
p("C07","The decoder consumes exactly the bytes the file occupies",
 "Decoding reads exactly the bytes of the document, reports that number, and leaves the reader at the end of the document, so that whatever follows it in the stream can be read next; reading only the configuration stops at the end of the part it needs.",
 ["inputs"],"every well-formed document followed by arbitrary bytes, whatever sections are skipped",
 "No test checks the count or embeds a document in a longer stream.",
 ["psd.go","layer.go","util.go"],[("read counters returned by every reader function","psd.go, layer.go, imageres.go")],["(PSD, bytes read, error)"])
p("C08","The result does not depend on how the reader delivers the bytes",
 "A document decodes to the same result from any reader that delivers the same bytes: in one piece, one byte at a time, in irregular pieces, with the end-of-file error together with the last bytes, seekable or not, and from readers whose Seek method fails.",
 ["inputs","schedules"],"every document and every partition of its bytes into reads; seekable, non-seekable and pipe-like readers",
 "Tests decode from one kind of reader (an os.File or a bytes.Reader).",
 ["psd.go","layer.go","util.go"],[("io.ReadFull wrappers, discard / padding","util.go")])
p("C09","Decode options and callbacks change only what they say",
 "Skipping the merged image or the layer images leaves everything else as in a full decode, and callbacks see each layer's images once they are decoded, in order, with the same content a full decode gives. An error returned by a callback stops decoding and is returned.",
 ["inputs","configurations"],"every document and every combination of options and callback outcomes",
 "Options are used in one benchmark; no test compares them with a full decode.",
 ["psd.go","layer.go"],[("DecodeOptions","psd.go"),("LayerLoaded / LayerImageLoaded callbacks","layer.go")])
p("C10","No malformed file makes the decoder panic or hang",
 "For every byte sequence, decoding ends with a result or an error: it does not panic, hang, or overrun memory, and any result it returns can be inspected at every point of its images without panicking.",
 ["inputs"],"every byte sequence, in particular damaged and inconsistent documents",
 "Tests only feed well-formed files.",
 ["psd.go","layer.go","imageres.go","compress.go","picker.go"],[("length and range checks in every reader","psd.go, layer.go, imageres.go, compress.go")])
p("C11","A truncated file is an error",
 "Every proper prefix of a document's bytes is reported as an error by a full decode, and a read error from the reader at any position is returned to the caller.",
 ["inputs","fault_sequences"],"every document and every cut or fault position",
 "No test truncates a file or injects a read error.",
 ["psd.go","layer.go","util.go","compress.go"],[("error propagation","psd.go, layer.go, util.go")])
p("C12","Decoding is deterministic: CPUs and concurrency do not matter",
 "The decoded document is the same for any number of CPUs, and concurrent decodes of any documents, and concurrent reads of one decoded document, do not influence each other.",
 ["inputs","schedules","configurations"],"every document, 1..8 CPUs, every schedule of concurrent decodes",
 "Tests run with the machine's CPU count and one decode at a time.",
 ["compress.go","layer.go","psd.go"],[("row-parallel PackBits decoding","compress.go")])
p("C13","Every color converts to the RGBA value its definition gives",
 "For every value of every color type of the color package, converting to 16-bit premultiplied RGBA yields components not above alpha that equal, up to rounding, the defined formula of that type; fully transparent colors give zero, and conversion is monotone in each sample. 8-bit and 16-bit variants of one color type agree on equal values.",
 ["inputs"],"every value of every color type, with 32-bit float samples out of range, infinite or not a number",
 "The tests sample a few values of some types and have no reference formula for the others.",
 ["color/color.go"],[("RGBA methods","color/color.go")])
p("C14","Color models convert faithfully",
 "Every color model returns a color of its own type, leaves colors of its type unchanged, never panics, keeps full transparency, and preserves the color of translucent and opaque inputs to the precision of its type (the luminance for gray models).",
 ["inputs"],"every model and every color of every type, standard library types included",
 "The tests convert a few opaque colors.",
 ["color/color.go"],[("model functions","color/color.go")])
p("C15","Each blend mode computes its defining formula",
 "For every blend mode, drawing one pixel over another gives, for every combination of source and backdrop color, both alphas, mask alpha and image type, the result of the mode's defining formula composited with the standard alpha equation, within a rounding tolerance of a few 8-bit units.",
 ["inputs"],"every mode, source, backdrop, alphas, mask, and source/destination image type",
 "The tests compare a fixed gradient picture per mode with a stored image, mostly opaque.",
 ["blend/zblends.go","blend/draw.go","blend/genblend.go"],[("generated per-mode drawers","blend/zblends.go")],["blend.Drawer.DrawMask"])
p("C16","Porter-Duff operators compute their defining formula",
 "For every Porter-Duff operator, drawing one pixel over another gives the operator's defining combination of source and backdrop, within a rounding tolerance of one or two 8-bit units, for every pair of colors and alphas and every source and destination image type.",
 ["inputs"],"every operator, source, backdrop, alphas and image types",
 "The tests compare one fixed picture per operator.",
 ["blend/zporterduffs.go","blend/draw.go"],[("generated operators","blend/zporterduffs.go")])
p("C17","Drawing touches exactly the requested area and only the destination",
 "Drawing changes only destination pixels inside the given rectangle clipped to the destination, source and mask bounds, aligned so that the source and mask points meet the rectangle's corner, for images and sub-images at any offset. Source and mask are never modified, and no rectangle, however placed, panics.",
 ["inputs"],"every rectangle, source and mask point, bounds, sub-image stride, image type and mode",
 "Tests always draw whole images at the origin.",
 ["blend/draw.go","blend/zblends.go","blend/util.go"],[("clip","blend/draw.go"),("stride and offset arithmetic","blend/zblends.go")])
p("C18","Optimised drawing paths agree with the generic path",
 "For every mode, the result does not depend on which concrete image type holds the same colors: the optimised paths for particular source, mask and destination types agree with the generic path within rounding. A nil mask equals an opaque mask, and a uniform mask equals a mask image of the same constant alpha.",
 ["inputs","configurations"],"every mode and every combination of source, mask and destination image types, with and without assembly",
 "Tests use one type combination.",
 ["blend/zblends.go","blend/draw.go","blend/normal_amd64.s","blend/zrgba2nrgbatable.go"],[("type switches","blend/draw.go, blend/zblends.go"),("assembly","blend/normal_amd64.s")])
p("C19","Drawing in parallel or tile by tile equals drawing at once",
 "Drawing an area gives the same pixels whether it is done by one CPU or several, in one call or as any partition into rectangles, and drawing an image onto an overlapping part of itself gives what drawing a copy of it would give.",
 ["inputs","schedules","configurations"],"every image, partition, CPU count and overlap",
 "Tests make one call per image at the default CPU count.",
 ["blend/draw.go","blend/zblends.go"],[("parallel row split","blend/draw.go")])
p("C20","Exact identities of drawing hold exactly",
 "Under every blend mode a fully transparent source or mask leaves the destination unchanged, and a fully transparent 8-bit destination receives exactly the source. Normal drawing of an opaque source replaces the destination exactly; under every blend mode, source-over, destination-over and source-atop an opaque destination stays opaque, and except for source-atop an opaque unmasked source makes it opaque. Every Porter-Duff operator is exact where both operands are fully opaque or fully transparent, and Copy keeps every pixel of an image of the destination's own 8-bit type.",
 ["inputs"],"every mode or operator, destination and neutral operand, and image type",
 "The tests compare within a tolerance on fixed pictures.",
 ["blend/zblends.go","blend/zporterduffs.go"],[("neutral-operand short cuts","blend/zblends.go")])
p("C21","Rendering a layer tree equals compositing its layers by definition",
 "Rendering any tree gives, for every pixel, what compositing the visible layers from bottom to top by definition gives: layer opacity, masks with their default color, clipping groups blended as a group or one by one, blend modes (unknown ones as normal), pass-through and isolated groups, and nothing from invisible layers. A pass-through group multiplies its children's opacity and its mask mixes the picture with what is below; a group that others clip to is isolated.",
 ["inputs"],"every layer tree with masks, clips, groups, blend modes, opacities and visibility",
 "One test renders sample files and compares nothing but a stored image.",
 ["composite/renderer.go","composite/draw.go","composite/layer.go","composite/builder.go"],[("Renderer.Render / drawLayer","composite/renderer.go, composite/draw.go")],["composite.Renderer.Render"])
p("C22","Incremental rendering equals rendering from scratch",
 "After any sequence of changes to visibility, opacity, blend mode, mask use or the way clipped layers are blended that are announced with SetDirtyByLayer, rendering with the retained caches, fully or only the changed part, gives the same image as building and rendering the changed tree from scratch. Rendering only the changed part draws nothing where no announced layer reaches.",
 ["histories","inputs"],"every sequence of visibility, opacity, blend-mode, mask and clip-blending changes, announced with SetDirtyByLayer in any order or while rendering, interleaved with full, partial and aborted renders",
 "No test renders twice.",
 ["composite/renderer.go","composite/layer.go","composite/draw.go"],[("SetDirtyByLayer, dirty tiles, caches","composite/layer.go, composite/renderer.go")])
p("C23","A cloned tree is independent of the original",
 "A clone renders like the original, and changing or rendering either one afterwards never changes what the other renders.",
 ["histories","schedules"],"every tree and every interleaving of changes and renders of original and clone",
 "No test clones a tree.",
 ["composite/cloner.go"],[("Tree.Clone","composite/cloner.go")])
p("C24","Tile size, CPUs and crop do not change the rendering",
 "The rendered pixels inside the tree's rectangle do not depend on the tile size the tree was built with, the number of CPUs, whether it was rendered before, whether it is being rendered several times at once or what the destination held, and rendering into a sub-rectangle gives exactly that part of the full rendering and changes nothing outside it.",
 ["inputs","configurations","schedules"],"every tree, tile size, CPU count and rectangle",
 "One tile size and whole-image renders only.",
 ["composite/builder.go","composite/draw.go","composite/renderer.go"],[("tiling","composite/builder.go, composite/draw.go")])
p("C25","The layer tree built from a document mirrors the document",
 "The tree built from a document has the document's size and exactly its layers, in order and nested alike, with the same names (legacy ones decoded as the encoding detector says, or as they are if that fails), opacity, visibility, blend mode, mask use, clipping relation and parent, all pointers leading into the same tree, and a color image equal to the layer's pixels. A truncated or unsupported document (not 8-bit RGB) gives an error and no tree. Nothing goes on running once building has returned.",
 ["inputs"],"every document the composite package supports",
 "One test builds trees and inspects nothing.",
 ["composite/builder.go","composite/layer.go","composite/layerimage.go"],[("New / buildTree","composite/builder.go")])
p("C26","Cancelling stops composite operations without damage",
 "Cancelling the context before or during building, rendering, transforming or making thumbnails makes the call return with ErrAborted or with a complete, correct result; it neither deadlocks, leaves goroutines behind nor corrupts the tree, which renders correctly afterwards. The work that remains when the context is done is not carried out to the end.",
 ["inputs","schedules","fault_sequences"],"every operation and every cancellation point",
 "No test cancels anything.",
 ["composite/context.go","composite/builder.go","composite/renderer.go"],[("context checks","composite/context.go")])
p("C27","Scaling and moving a layer tree is consistent",
 "Transforming a tree, when it is built or later, by the identity changes nothing; moving it by whole pixels, flipping or turning it by quarters moves the rendering of opaque and transparent pixels alike and the canvas rectangle with it, and back again; magnifying uniformly colored layers while building equals drawing magnified layers; under any other matrix every layer and mask is resampled bilinearly, the colors averaged in the light the gamma states, and a mask that hides nothing has no effect. The original tree is unchanged.",
 ["inputs"],"every tree, translation, flip, turn, scale and gamma",
 "No test transforms a tree.",
 ["composite/layerimage.go","composite/cloner.go"],[("Transform","composite/layerimage.go")])
p("C28","Thumbnails and thumbnail sheets show each layer",
 "A layer's thumbnail fits the requested size, keeps the aspect ratio and shows the layer's own pixels; a thumbnail sheet holds one thumbnail per layer in a rectangle that overlaps no other and lies inside the sheet, equal to the thumbnail made alone.",
 ["inputs"],"every tree, also a clone or a transformed tree, and every thumbnail size",
 "No test makes thumbnails.",
 ["composite/thumbnail.go"],[("Thumbnail / ThumbnailSheet","composite/thumbnail.go")])
p("C29","The exporter command writes every layer's picture faithfully",
 "For every readable document, the psdexporter command writes exactly one PNG file for every layer with pixels (nothing for groups and empty layers), named after the layer's position in the tree, each holding the pixels that decoding gives; it prints which layer each file holds and exits successfully. For a document it cannot read it exits with a failure and writes no file, and it exits with a failure when it cannot write one of its files.",
 ["inputs","fault_sequences"],"every document (groups, empty layers, all modes and depths), damaged documents, and output files that cannot be written",
 "The command has no tests.",
 ["psdexporter/main.go"],[("processLayer / main","psdexporter/main.go")],["PNG files","exit status","standard output"])
p("C30","The JavaScript PackBits decoder agrees with the native one",
 "For every row table and every valid PackBits data, the JavaScript decoder used in browsers gives exactly the line lengths and bytes that the native decoder gives, and reports data that does not fit its destination as an error without throwing.",
 ["inputs","configurations"],"every valid PackBits encoding, and damaged ones",
 "Tests run natively only; the JavaScript code is never executed.",
 ["compress.inc.js","compress_js.go"],[("decodePackBits, decodePackBitsLines in JavaScript","compress.inc.js")])
p("C31","Decoding gives the same result on every platform",
 "A document decodes to the same result, or is rejected as well, by the native build, a 32-bit build and the WebAssembly build; no length or size field overflows the platform's integers, and none of the builds panics on damaged documents.",
 ["inputs","configurations"],"every document, well-formed or damaged; amd64, 386 and WebAssembly builds",
 "Tests run on one platform.",
 ["compress_wasm_js.go","compress_other.go","psd.go","layer.go","imageres.go","util.go"],[("readLen, planeLen","util.go, layer.go"),("decodePackBits for wasm","compress_wasm_js.go")])
p("C32","No malformed document makes layer trees panic or hang",
 "For every byte sequence, building a layer tree ends with a tree exactly when the document can be decoded and is 8-bit RGB, and with an error otherwise. A tree that is built has each layer of the document once, properly linked to its parent, children and clipping group, whatever the layers' rectangles, channels and masks are; it renders the same with every tile size and number of CPUs, and rendering, editing, cloning, transforming it or making thumbnails neither panics nor hangs.",
 ["inputs","histories"],"every damaged or unusual document: missing or repeated channels, rectangles that are huge, empty or far away, masks without data, broken sections; 64-bit and 32-bit builds",
 "The composite package has no test of its own that builds; its inputs are assumed to be well-formed.",
 ["composite/layer.go","composite/builder.go","composite/layerimage.go","composite/renderer.go","composite/thumbnail.go"],[("createCanvas, channelData","composite/layer.go"),("newTiledImage, newTiledMask, tileable","composite/layerimage.go"),("buildLayer, registerClippingGroup","composite/builder.go")],["composite.New","Renderer.Render"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
ids=[d["id"] for d in P]; assert len(ids)==len(set(ids))
