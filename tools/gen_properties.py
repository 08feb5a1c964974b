#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
R="src/runtime/render.rs"; C="src/import/converters.rs"; B="src/import/builders.rs"; V="src/runtime/model/value.rs"; A="src/runtime/model/animated.rs"; F="src/runtime/model/fixed.rs"
SINK="calls received by a user-supplied render sink"

p("C01","Every render is a well-nested sequence of sink calls inside one viewport clip",
"Whatever the composition and frame, the sink first receives one clip of the full composition rectangle under the caller's transform and last receives its pop, and everything else happens between the two. Every pushed layer or clip is popped exactly once, within the same layer group in which it was pushed, and every layer group that is begun is ended, in last-in-first-out order. Nothing is ever popped that was not pushed.",
["inputs","configurations"],"all compositions (any mix of visible/invisible, hidden, parented, matted, masked, nested, dangling and cyclic layers) and all frames",
"No existing test renders anything; the tests only parse and convert single layers.",
[R],[("viewport clip and final pop",R+" append"),("pop count derived from masks and matte",R+" render_layer")],
[("sink stack","open layers, clips and groups","the sink")],[SINK])

p("C02","Layers paint back to front: exactly those active and not matte sources",
"At frame f the layers of a composition are visited from last to first, and a layer contributes exactly when its in point <= f < its out point and it is not marked as a matte source. Each contributing layer is announced once with its own name and its position in its layer list before any of its output, and closed after it. A hidden layer keeps its place, name and transform but paints nothing, and layers without drawable content paint nothing.",
["inputs"],"all layer lists, in/out points and frames, including the end points of every interval, at top level and inside precompositions",
"Tests check that one hidden layer converts to empty content; no test renders a frame or orders layers.",
[R,C,B],[("half-open frame range test",R+" render_layer"),("reverse iteration and matte-source skip",R+" append/render_layer"),("hidden layers keep slot, lose content",C+" conv_layer")],
[("layer range","[in,out) of a layer","model Layer.frames")],[SINK])

p("C03","Everything is placed by the full chain of transforms above it",
"The transform handed to the sink for any drawn shape or mask is: caller transform, then for every enclosing precomposition instance and finally the layer itself the transforms of its ancestors (outermost first) and its own, then the enclosing shape groups' transforms, outermost first, each evaluated at its local frame. Each single transform is translate(position) * rotate * skew * scale/100 * translate(-anchor), with omitted parts neutral. Parents are found by layer id wherever they are declared, count whether or not they are visible or active, and a missing parent or a parent cycle never prevents rendering.",
["inputs"],"all parent graphs (declaration orders, chains, hidden or inactive parents, missing ids), nesting depths, transform components and frames",
"No test evaluates a transform or renders a parented layer.",
[R,C,A],[("parent chase",R+" compute_transform"),("id to index resolution",C+" process_layers"),("component order",A+" Transform::evaluate"),("defaults for omitted parts","src/import/defaults.rs")],
[],[SINK])

p("C04","Opacity multiplies down the tree and reaches every brush",
"The colour handed to the sink for a fill or stroke has alpha equal to the style's own colour alpha times the caller's alpha times the opacity/100 of every enclosing precomposition instance, the layer, every enclosing shape group and the style itself, each evaluated at its local frame, an opacity below zero counting as zero. This holds alike for solid and gradient paints (every stop) and for fills and strokes. Siblings, matte sources, masks and parent (transform-only) layers never contribute to it.",
["inputs"],"all nestings of instances, layers and groups with static or animated opacities, both paint kinds and fill/stroke",
"No test renders; opacity is only ever parsed.",
[R,C,A],[("alpha threading",R+" render_layer/render_shapes"),("draw opacity",R+" DrawData::new"),("brush modulation",R+" Batch::render")],[],[SINK])

p("C05","Track mattes pair the right layers and composite in isolation",
"A layer with a matte mode is composited with the layer named by its matte reference or, when it names none, with the nearest preceding visible matte source, provided no other matted layer lies between them; if there is no such layer it is painted plainly. The pair is emitted as: an isolation layer, the matte source's own output, a compositing layer whose operator matches the mode (alpha/luma: source-in, inverted: source-out, normal: plain), the layer's output, then both are closed. A matte source is painted only through such pairs, once per layer using it and subject to its own active interval.",
["inputs"],"all sequences of sources, consumers (implicit and explicit), hidden or inactive sources and dangling references, at top level and inside precompositions",
"Tests only check one boolean of one converted layer; pairing and compositing are never exercised.",
[C,B,R],[("matte pairing",C+" process_layers"),("mode mapping",B+" setup_*_layer"),("isolation push/pop",R+" render_layer")],
[("pending matte source","nearest unused matte source while importing","converters process_layers prev_matte_layer")],[SINK,"imported layer list"])

p("C06","Layer masks clip exactly the layer they belong to",
"Each mask shape of a layer is pushed as one clip, in declaration order, with the mask's outline at the current frame and under the layer's full transform, before the layer's own content and after its matte source. The clips are released in the same layer, so that content of other layers and the matte source are never clipped by them. The outline of one mask never leaks into another mask, layer or frame.",
["inputs","histories"],"all numbers of masks, static and animated outlines, layer kinds, nesting, frames and preceding renders",
"No test contains a mask that is rendered.",
[R,B],[("mask clip emission and buffer reuse",R+" render_layer"),("mask import",B+" setup_*_layer")],[("mask buffer","scratch path reused across masks","Renderer.mask_elements")],[SINK])

p("C07","Precomposition instances show the asset at the instance's local time",
"An instance layer active at frame f paints the asset with its referenced id at local frame (f - start time) / time stretch, layer by layer, back to front, under the instance's transform, opacity, masks and matte. Instances of the same asset are independent of each other, and nesting composes the time mappings. The instance's own transform, opacity and masks use f itself, and a reference to an absent asset paints nothing.",
["inputs"],"all assets, instance counts, start times, stretches, nesting depths and frames, including local interval end points",
"No test has an asset that is rendered.",
[R,C],[("local time",R+" render_layer Instance arm"),("asset table",C+" conv_animation")],[("assets","layers by asset id","Composition.assets")],[SINK])

p("C08","A fill or stroke paints exactly the geometry before it in its own group",
"Each fill or stroke paints, exactly once, all geometry that precedes it in its own group, including geometry of preceding nested groups under their transforms, and nothing else: no geometry of enclosing or following groups and none declared after it. Styles paint bottom to top, so a style listed earlier is painted later (above). Consecutive outlines under the same transform within one group form one compound path for styles that follow them all, and outlines keep declaration order.",
["inputs"],"all shape trees: any interleaving and nesting of outlines, fills, strokes, groups with or without (equal or different) transforms, empty groups and unsupported elements",
"No test paints a shape tree.",
[R,C],[("geometry ranges per scope",R+" render_shapes / Batch::push_draw"),("compound merging",R+" Batch::push_geometry"),("reverse draw order",R+" Batch::render"),("group conversion",C+" conv_shape")],
[("batch","elements, geometries, draws, drawn marker","Renderer.batch")],[SINK])

p("C09","Animated properties follow their keyframes exactly",
"For every animated property (scalars, points, sizes, colours, gradient stops and path outlines) the value at a keyframe's frame is that keyframe's value, before the first and after the last keyframe it is the first respectively last value, and a hold keyframe keeps its whole value until the next keyframe. Between two keyframes the value is start + (end - start) * y, where y is the ordinate, at the abscissa equal to the elapsed fraction, of the cubic curve (0,0),(out handle),(in handle),(1,1) of the starting keyframe, linear when no handles are given. A path keyframe's explicit end outline replaces the next keyframe's outline as the target, and an omitted final outline repeats the previous one.",
["inputs"],"all keyframe lists with increasing times, all property kinds, handle encodings and frames (on, between, before and after keyframes)",
"No test evaluates an animated value.",
[V,A,C],[("bracketing search and weight",V+" Time::frames_and_weight"),("easing",V+" Tween for f64"),("path tween",A+" Spline::evaluate"),("stop tween",A+" ColorStops"),("keyframe import",C+" conv_scalar/conv_keyframes/conv_shape_geometry")],[],[SINK,"public value evaluation"])

p("C10","Trim paths keep exactly the selected stretch of each outline",
"A trim keeps, of every outline before it in its own group, the stretch between its start and end percentages of the outline's length (in either order), rotated by offset/360 with wrap-around, and nothing else; zero extent leaves nothing and an extent of 100% or more leaves the outline whole. Kept pieces lie on the original outline in original order and are never joined across gaps between separate sub-outlines. Outlines outside the group or declared after the trim are unaffected, and styles already declared in the group show the trimmed outlines too.",
["inputs"],"all outlines (open, closed, compound, degenerate), start/end/offset values (unordered, negative, beyond 100%, wrapping), static or animated, nested groups and repeated trims",
"No test renders or normalises a trim.",
[R,F],[("normalisation",F+" Trim::normalized"),("cutting and range rebasing",R+" Batch::apply_trim")],[("elements buffer","rebuilt by every trim","Batch.elements")],[SINK])

p("C11","A frame's output depends only on the inputs of that call",
"Rendering the same composition at the same frame, transform and alpha produces the same sink calls however often and in whatever order the renderer was used before, for other frames, other compositions or renders cut short by a panicking sink, and whatever other renderers do in the meantime, on other threads or within one of its sink calls. A render cut short has issued exactly a prefix of the full call sequence. Rendering never changes the composition.",
["histories","crash_points","schedules"],"all histories of renders on one renderer, with a sink failure possible at every single sink call, and all schedules of two renderers that switch within sink calls",
"No test renders twice with one renderer or injects a sink failure.",
[R],[("scratch state reset",R+" append / Batch::clear")],[("renderer scratch","batch and mask buffers surviving between calls","Renderer")],[SINK])

p("C12","Loading any input returns a composition or an error, never a panic",
"Loading arbitrary bytes either yields a composition or an error value and never panics: documents that follow the schema load even when they use optional, unsupported or neutral features (which are then ignored or simplified), and truncated text, missing required fields, wrongly typed fields and unknown layer or shape kinds are errors. An error inside an asset names that asset's id. Unknown extra fields are ignored.",
["inputs"],"all documents built from the schema with every optional field present, absent or null, every enumerated constant, every unsupported feature, and every single-field corruption and truncation of them",
"Tests parse a handful of well-formed snippets.",
["src/schema/layers/mod.rs","src/schema/assets/mod.rs",C,B,"src/schema/animated_properties/shape_property.rs","src/error.rs"],[("typed deserialisation","src/schema"),("dispatch by layer type","src/schema/layers/mod.rs"),("asset dispatch and error context","src/schema/assets/mod.rs"),("path keyframe validation","src/schema/animated_properties/shape_property.rs")],[],["result of loading"])

p("C13","Rendering any loaded composition terminates with finite output",
"Rendering any composition that loaded successfully, at any finite frame, returns without panicking and without unbounded recursion or iteration, even when layers are their own ancestors, mattes or precompositions, directly or through others. A layer is never painted inside itself; the rest of the composition is painted normally. All coordinates, transforms and colours handed to the sink are finite whenever the document's numbers are finite and its time stretches non-zero.",
["inputs"],"all reference graphs including cycles of parents, mattes and instances, degenerate outlines and keyframe lists, and all finite frames",
"No test renders; none contains a cycle.",
[R,V,A],[("parent cycle bound",R+" compute_transform"),("recursion over mattes and instances",R+" render_layer"),("keyframe weight",V+" Time::frames_and_weight")],[],[SINK])

p("C14","All loading routes and re-serialised documents mean the same",
"Loading the same document from text, from bytes or from an already parsed JSON value gives the same result. Parsing a document into the schema and serialising it again loses and invents nothing the schema models: the output parses to an equal schema value and loads to the same composition with the same rendering.",
["inputs"],"all documents of the schema, every modelled field, layer, shape and asset kind",
"Tests round-trip four fixed snippets.",
["src/runtime/mod.rs","src/schema/animation/animation.rs","src/schema/layers/mod.rs","src/schema/assets/mod.rs","src/schema/shapes/mod.rs"],[("serde derives and custom dispatch","src/schema")],[],["schema values","composition fields",SINK])

p("C15","A property animated with constant keyframes renders like a static one",
"Replacing any static property value by keyframes that all carry that value, whatever their times, easing or hold flags, leaves the rendering unchanged at every frame, for every property kind of layers, masks, groups, outlines, styles, gradients and trims. The same holds for evaluating the public model types directly, including the alpha passed to a brush.",
["inputs"],"all documents, all subsets of their animatable properties, all constant keyframe lists and frames",
"No test compares static and animated evaluation.",
["src/runtime/model/mod.rs",A,C],[("fixed/animated split",A+" into_model / is_fixed"),("evaluate","src/runtime/model/mod.rs")],[],[SINK,"public value evaluation"])

p("C16","Outlines have the geometry their parameters describe",
"A rectangle covers position +- size/2 with its corners rounded by the given radius, an ellipse has the given centre and semi-axes size/2, a polygon or star has the given number of vertices alternating on the given radii from the given centre and rotation (first vertex straight up at rotation 0) with the given roundness, and a path passes through its vertices in order using its relative in/out tangents, straight where both are zero, and is closed exactly when marked closed. This holds at every frame for animated parameters. Outlines are emitted whole: starting with a move, and each outline independent of its neighbours.",
["inputs"],"all four outline kinds, parameter values, closedness, tangent presence and frames",
"Tests only parse shapes.",
[A,"src/runtime/model/spline.rs","src/runtime/model/mod.rs",C],[("evaluation of outlines",A+" Rect/Ellipse/Star/Spline"),("spline to path","src/runtime/model/spline.rs"),("path import",C+" conv_spline/conv_shape_geometry")],[],[SINK])

p("C17","A repeater paints each style once per copy, placed and faded as that copy",
"A repeater with n copies makes every style before it in its group paint exactly n times, copy i painting that style's outlines under their own transform followed by the repeater transform raised to offset + i (translation, rotation and scale about the anchor, innermost) with opacity interpolated from start to end opacity. Copies with non-positive opacity are skipped, zero copies leave nothing, and content outside the group or after the repeater is unaffected.",
["inputs"],"all programmatically built shape trees with repeaters, copy counts, offsets, transforms and opacities",
"No test contains a repeater.",
[R,F,A],[("geometry and draw duplication",R+" Batch::repeat"),("copy transform",F+" Repeater::transform")],[("batch","geometry ranges of draws","Renderer.batch")],[SINK])

p("C18","The Vello back end encodes exactly the sink calls",
"Rendering through the built-in Vello scene yields the same scene encoding as performing the render's sink calls on a scene one by one: a stroke call strokes with the given style, any other draw fills with the non-zero rule, layers and clips are opened with the given blend, alpha, transform and shape, and each pop closes one. Rendering to a new scene equals appending to an empty one, and appending to a scene leaves what it already contains untouched.",
["inputs","histories"],"all compositions, frames, transforms, alphas and previous scene contents",
"No test builds a scene.",
["src/runtime/vello.rs"],[("sink implementation for the scene","src/runtime/vello.rs"),("new-scene wrapper","src/runtime/vello.rs render_to_vello_scene")],[],["scene encoding"])

p("C19","Fills, strokes and gradients keep their declared style",
"A fill or stroke reaches the sink with its declared colour components at the current frame; a stroke additionally with its width at the current frame, cap, join and miter limit, and a fill without stroke style. A gradient reaches the sink with its declared kind, start and end point (radial: centred on the start point with radius their distance) and its colour stops with declared offsets and colours, in order, opaque when no opacity stops are given; opacity stops (at least two, spanning the colour stops) give each colour stop between offsets 0.1 and 0.9 the opacity interpolated linearly between the two opacity stops around its offset. Each style keeps its own parameters independent of other styles.",
["inputs"],"all style kinds, colours, widths, cap/join/miter codes and omissions, gradient kinds and stop lists, static or animated",
"Tests only parse styles.",
[C,A],[("style import",C+" conv_draw/conv_gradient_colors/conv_stops"),("brush and stroke evaluation",A+" Brush/Stroke/Gradient")],[],[SINK])

p("C20","Importing keeps the composition's structure and resolves references by id",
"A loaded composition has the document's frame range, frame rate and size, one layer per document layer in the same order with its name, active range, stretch, start time, opacity, mask opacities and blend mode (none for normal and for modes without an equivalent), an instance also with its size and time remapping, and one entry per precomposition asset under its id. Parent and matte references denote the position of the layer with that id in the same layer list, independent of declaration order, of other layer lists and of hidden layers; references to absent ids denote nothing. Every stored reference is a valid position in its layer list.",
["inputs"],"all documents: any ids (sparse, unordered), reference graphs, hidden flags, several assets with overlapping ids",
"Tests convert isolated layers without references.",
[C,B,"src/runtime/mod.rs"],[("id map per layer list",C+" process_layers"),("composition fields",C+" conv_animation")],[("idmap","layer id to position","converters process_layers")],["composition fields"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
