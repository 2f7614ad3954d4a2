//! Frozen list of the SVG 1.1 names and their ids (oracle for C13).
use svgdom::{AttributeId as A, ElementId as E};
pub const ELEMENTS: &[(&str, E)] = &[
    ("a", E::A),
    ("altGlyph", E::AltGlyph),
    ("altGlyphDef", E::AltGlyphDef),
    ("altGlyphItem", E::AltGlyphItem),
    ("animate", E::Animate),
    ("animateColor", E::AnimateColor),
    ("animateMotion", E::AnimateMotion),
    ("animateTransform", E::AnimateTransform),
    ("circle", E::Circle),
    ("clipPath", E::ClipPath),
    ("color-profile", E::ColorProfile),
    ("cursor", E::Cursor),
    ("defs", E::Defs),
    ("desc", E::Desc),
    ("ellipse", E::Ellipse),
    ("feBlend", E::FeBlend),
    ("feColorMatrix", E::FeColorMatrix),
    ("feComponentTransfer", E::FeComponentTransfer),
    ("feComposite", E::FeComposite),
    ("feConvolveMatrix", E::FeConvolveMatrix),
    ("feDiffuseLighting", E::FeDiffuseLighting),
    ("feDisplacementMap", E::FeDisplacementMap),
    ("feDistantLight", E::FeDistantLight),
    ("feFlood", E::FeFlood),
    ("feFuncA", E::FeFuncA),
    ("feFuncB", E::FeFuncB),
    ("feFuncG", E::FeFuncG),
    ("feFuncR", E::FeFuncR),
    ("feGaussianBlur", E::FeGaussianBlur),
    ("feImage", E::FeImage),
    ("feMerge", E::FeMerge),
    ("feMergeNode", E::FeMergeNode),
    ("feMorphology", E::FeMorphology),
    ("feOffset", E::FeOffset),
    ("fePointLight", E::FePointLight),
    ("feSpecularLighting", E::FeSpecularLighting),
    ("feSpotLight", E::FeSpotLight),
    ("feTile", E::FeTile),
    ("feTurbulence", E::FeTurbulence),
    ("filter", E::Filter),
    ("font", E::Font),
    ("font-face", E::FontFace),
    ("font-face-format", E::FontFaceFormat),
    ("font-face-name", E::FontFaceName),
    ("font-face-src", E::FontFaceSrc),
    ("font-face-uri", E::FontFaceUri),
    ("foreignObject", E::ForeignObject),
    ("g", E::G),
    ("glyph", E::Glyph),
    ("glyphRef", E::GlyphRef),
    ("hkern", E::Hkern),
    ("image", E::Image),
    ("line", E::Line),
    ("linearGradient", E::LinearGradient),
    ("marker", E::Marker),
    ("mask", E::Mask),
    ("metadata", E::Metadata),
    ("missing-glyph", E::MissingGlyph),
    ("mpath", E::Mpath),
    ("path", E::Path),
    ("pattern", E::Pattern),
    ("polygon", E::Polygon),
    ("polyline", E::Polyline),
    ("radialGradient", E::RadialGradient),
    ("rect", E::Rect),
    ("script", E::Script),
    ("set", E::Set),
    ("stop", E::Stop),
    ("style", E::Style),
    ("svg", E::Svg),
    ("switch", E::Switch),
    ("symbol", E::Symbol),
    ("text", E::Text),
    ("textPath", E::TextPath),
    ("title", E::Title),
    ("tref", E::Tref),
    ("tspan", E::Tspan),
    ("use", E::Use),
    ("view", E::View),
    ("vkern", E::Vkern),
];
pub const ATTRIBUTES: &[(&str, A)] = &[
    ("accent-height", A::AccentHeight),
    ("accumulate", A::Accumulate),
    ("actuate", A::Actuate),
    ("additive", A::Additive),
    ("alignment-baseline", A::AlignmentBaseline),
    ("alphabetic", A::Alphabetic),
    ("amplitude", A::Amplitude),
    ("arabic-form", A::ArabicForm),
    ("arcrole", A::Arcrole),
    ("ascent", A::Ascent),
    ("attributeName", A::AttributeName),
    ("attributeType", A::AttributeType),
    ("azimuth", A::Azimuth),
    ("base", A::Base),
    ("baseFrequency", A::BaseFrequency),
    ("baseProfile", A::BaseProfile),
    ("baseline-shift", A::BaselineShift),
    ("bbox", A::Bbox),
    ("begin", A::Begin),
    ("bias", A::Bias),
    ("by", A::By),
    ("calcMode", A::CalcMode),
    ("cap-height", A::CapHeight),
    ("class", A::Class),
    ("clip", A::Clip),
    ("clip-path", A::ClipPath),
    ("clip-rule", A::ClipRule),
    ("clipPathUnits", A::ClipPathUnits),
    ("color", A::Color),
    ("color-interpolation", A::ColorInterpolation),
    ("color-interpolation-filters", A::ColorInterpolationFilters),
    ("color-profile", A::ColorProfile),
    ("color-rendering", A::ColorRendering),
    ("contentScriptType", A::ContentScriptType),
    ("contentStyleType", A::ContentStyleType),
    ("cursor", A::Cursor),
    ("cx", A::Cx),
    ("cy", A::Cy),
    ("d", A::D),
    ("descent", A::Descent),
    ("diffuseConstant", A::DiffuseConstant),
    ("direction", A::Direction),
    ("display", A::Display),
    ("divisor", A::Divisor),
    ("dominant-baseline", A::DominantBaseline),
    ("dur", A::Dur),
    ("dx", A::Dx),
    ("dy", A::Dy),
    ("edgeMode", A::EdgeMode),
    ("elevation", A::Elevation),
    ("enable-background", A::EnableBackground),
    ("encoding", A::Encoding),
    ("end", A::End),
    ("exponent", A::Exponent),
    ("externalResourcesRequired", A::ExternalResourcesRequired),
    ("fill", A::Fill),
    ("fill-opacity", A::FillOpacity),
    ("fill-rule", A::FillRule),
    ("filter", A::Filter),
    ("filterRes", A::FilterRes),
    ("filterUnits", A::FilterUnits),
    ("flood-color", A::FloodColor),
    ("flood-opacity", A::FloodOpacity),
    ("font", A::Font),
    ("font-family", A::FontFamily),
    ("font-size", A::FontSize),
    ("font-size-adjust", A::FontSizeAdjust),
    ("font-stretch", A::FontStretch),
    ("font-style", A::FontStyle),
    ("font-variant", A::FontVariant),
    ("font-weight", A::FontWeight),
    ("format", A::Format),
    ("from", A::From),
    ("fx", A::Fx),
    ("fy", A::Fy),
    ("g1", A::G1),
    ("g2", A::G2),
    ("glyph-name", A::GlyphName),
    ("glyph-orientation-horizontal", A::GlyphOrientationHorizontal),
    ("glyph-orientation-vertical", A::GlyphOrientationVertical),
    ("glyphRef", A::GlyphRef),
    ("gradientTransform", A::GradientTransform),
    ("gradientUnits", A::GradientUnits),
    ("hanging", A::Hanging),
    ("height", A::Height),
    ("horiz-adv-x", A::HorizAdvX),
    ("horiz-origin-x", A::HorizOriginX),
    ("horiz-origin-y", A::HorizOriginY),
    ("href", A::Href),
    ("id", A::Id),
    ("ideographic", A::Ideographic),
    ("image-rendering", A::ImageRendering),
    ("in", A::In),
    ("in2", A::In2),
    ("intercept", A::Intercept),
    ("k", A::K),
    ("k1", A::K1),
    ("k2", A::K2),
    ("k3", A::K3),
    ("k4", A::K4),
    ("kernelMatrix", A::KernelMatrix),
    ("kernelUnitLength", A::KernelUnitLength),
    ("kerning", A::Kerning),
    ("keyPoints", A::KeyPoints),
    ("keySplines", A::KeySplines),
    ("keyTimes", A::KeyTimes),
    ("lang", A::Lang),
    ("lengthAdjust", A::LengthAdjust),
    ("letter-spacing", A::LetterSpacing),
    ("lighting-color", A::LightingColor),
    ("limitingConeAngle", A::LimitingConeAngle),
    ("line-height", A::LineHeight),
    ("local", A::Local),
    ("marker", A::Marker),
    ("marker-end", A::MarkerEnd),
    ("marker-mid", A::MarkerMid),
    ("marker-start", A::MarkerStart),
    ("markerHeight", A::MarkerHeight),
    ("markerUnits", A::MarkerUnits),
    ("markerWidth", A::MarkerWidth),
    ("mask", A::Mask),
    ("maskContentUnits", A::MaskContentUnits),
    ("maskUnits", A::MaskUnits),
    ("mathematical", A::Mathematical),
    ("max", A::Max),
    ("media", A::Media),
    ("method", A::Method),
    ("min", A::Min),
    ("mode", A::Mode),
    ("name", A::Name),
    ("numOctaves", A::NumOctaves),
    ("offset", A::Offset),
    ("onabort", A::Onabort),
    ("onactivate", A::Onactivate),
    ("onbegin", A::Onbegin),
    ("onclick", A::Onclick),
    ("onend", A::Onend),
    ("onerror", A::Onerror),
    ("onfocusin", A::Onfocusin),
    ("onfocusout", A::Onfocusout),
    ("onload", A::Onload),
    ("onmousedown", A::Onmousedown),
    ("onmousemove", A::Onmousemove),
    ("onmouseout", A::Onmouseout),
    ("onmouseover", A::Onmouseover),
    ("onmouseup", A::Onmouseup),
    ("onrepeat", A::Onrepeat),
    ("onresize", A::Onresize),
    ("onscroll", A::Onscroll),
    ("onunload", A::Onunload),
    ("onzoom", A::Onzoom),
    ("opacity", A::Opacity),
    ("operator", A::Operator),
    ("order", A::Order),
    ("orient", A::Orient),
    ("orientation", A::Orientation),
    ("origin", A::Origin),
    ("overflow", A::Overflow),
    ("overline-position", A::OverlinePosition),
    ("overline-thickness", A::OverlineThickness),
    ("panose-1", A::Panose1),
    ("path", A::Path),
    ("pathLength", A::PathLength),
    ("patternContentUnits", A::PatternContentUnits),
    ("patternTransform", A::PatternTransform),
    ("patternUnits", A::PatternUnits),
    ("pointer-events", A::PointerEvents),
    ("points", A::Points),
    ("pointsAtX", A::PointsAtX),
    ("pointsAtY", A::PointsAtY),
    ("pointsAtZ", A::PointsAtZ),
    ("preserveAlpha", A::PreserveAlpha),
    ("preserveAspectRatio", A::PreserveAspectRatio),
    ("primitiveUnits", A::PrimitiveUnits),
    ("r", A::R),
    ("radius", A::Radius),
    ("refX", A::RefX),
    ("refY", A::RefY),
    ("rendering-intent", A::RenderingIntent),
    ("repeatCount", A::RepeatCount),
    ("repeatDur", A::RepeatDur),
    ("requiredExtensions", A::RequiredExtensions),
    ("requiredFeatures", A::RequiredFeatures),
    ("restart", A::Restart),
    ("result", A::Result),
    ("role", A::Role),
    ("rotate", A::Rotate),
    ("rx", A::Rx),
    ("ry", A::Ry),
    ("scale", A::Scale),
    ("seed", A::Seed),
    ("shape-rendering", A::ShapeRendering),
    ("show", A::Show),
    ("slope", A::Slope),
    ("space", A::Space),
    ("spacing", A::Spacing),
    ("specularConstant", A::SpecularConstant),
    ("specularExponent", A::SpecularExponent),
    ("spreadMethod", A::SpreadMethod),
    ("standalone", A::Standalone),
    ("startOffset", A::StartOffset),
    ("stdDeviation", A::StdDeviation),
    ("stemh", A::Stemh),
    ("stemv", A::Stemv),
    ("stitchTiles", A::StitchTiles),
    ("stop-color", A::StopColor),
    ("stop-opacity", A::StopOpacity),
    ("strikethrough-position", A::StrikethroughPosition),
    ("strikethrough-thickness", A::StrikethroughThickness),
    ("string", A::String),
    ("stroke", A::Stroke),
    ("stroke-dasharray", A::StrokeDasharray),
    ("stroke-dashoffset", A::StrokeDashoffset),
    ("stroke-linecap", A::StrokeLinecap),
    ("stroke-linejoin", A::StrokeLinejoin),
    ("stroke-miterlimit", A::StrokeMiterlimit),
    ("stroke-opacity", A::StrokeOpacity),
    ("stroke-width", A::StrokeWidth),
    ("style", A::Style),
    ("surfaceScale", A::SurfaceScale),
    ("systemLanguage", A::SystemLanguage),
    ("tableValues", A::TableValues),
    ("target", A::Target),
    ("targetX", A::TargetX),
    ("targetY", A::TargetY),
    ("text-anchor", A::TextAnchor),
    ("text-decoration", A::TextDecoration),
    ("text-rendering", A::TextRendering),
    ("textLength", A::TextLength),
    ("title", A::Title),
    ("to", A::To),
    ("transform", A::Transform),
    ("type", A::Type),
    ("u1", A::U1),
    ("u2", A::U2),
    ("underline-position", A::UnderlinePosition),
    ("underline-thickness", A::UnderlineThickness),
    ("unicode", A::Unicode),
    ("unicode-bidi", A::UnicodeBidi),
    ("unicode-range", A::UnicodeRange),
    ("units-per-em", A::UnitsPerEm),
    ("v-alphabetic", A::VAlphabetic),
    ("v-hanging", A::VHanging),
    ("v-ideographic", A::VIdeographic),
    ("v-mathematical", A::VMathematical),
    ("values", A::Values),
    ("version", A::Version),
    ("vert-adv-y", A::VertAdvY),
    ("vert-origin-x", A::VertOriginX),
    ("vert-origin-y", A::VertOriginY),
    ("viewBox", A::ViewBox),
    ("viewTarget", A::ViewTarget),
    ("visibility", A::Visibility),
    ("width", A::Width),
    ("widths", A::Widths),
    ("word-spacing", A::WordSpacing),
    ("writing-mode", A::WritingMode),
    ("x", A::X),
    ("x-height", A::XHeight),
    ("x1", A::X1),
    ("x2", A::X2),
    ("xChannelSelector", A::XChannelSelector),
    ("xlink", A::Xlink),
    ("xmlns", A::Xmlns),
    ("y", A::Y),
    ("y1", A::Y1),
    ("y2", A::Y2),
    ("yChannelSelector", A::YChannelSelector),
    ("z", A::Z),
    ("zoomAndPan", A::ZoomAndPan),
];
