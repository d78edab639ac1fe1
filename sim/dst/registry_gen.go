// Code generated by tools/genreg.py from the reference tree; the names are part of the specification. DO NOT EDIT.

package main

import (
	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

type regElem struct {
	Func, Wire string
	Void       bool
	Mk         func(...any) aitch.Node
}

type regAttr struct {
	Func, Wire, Kind, Delim string
	Mk                      func(...any) aitch.Node
}

type regProp struct {
	Func, Wire string
	Mk         func(...any) aitch.Node
}

type regUnit struct {
	Func, Wire string
	Mk         func(...any) aitch.Value
}

var regElems = []regElem{
	{"html.A", "a", false, html.A},
	{"html.Abbr", "abbr", false, html.Abbr},
	{"html.Address", "address", false, html.Address},
	{"html.Area", "area", true, html.Area},
	{"html.Article", "article", false, html.Article},
	{"html.Aside", "aside", false, html.Aside},
	{"html.Audio", "audio", false, html.Audio},
	{"html.B", "b", false, html.B},
	{"html.Base", "base", true, html.Base},
	{"html.BlockQuote", "blockquote", false, html.BlockQuote},
	{"html.Body", "body", false, html.Body},
	{"html.Br", "br", true, html.Br},
	{"html.Button", "button", false, html.Button},
	{"html.Canvas", "canvas", false, html.Canvas},
	{"html.Caption", "caption", false, html.Caption},
	{"html.Cite", "cite", false, html.Cite},
	{"html.Code", "code", false, html.Code},
	{"html.Col", "col", true, html.Col},
	{"html.ColGroup", "colgroup", false, html.ColGroup},
	{"html.DataElement", "data", false, html.DataElement},
	{"html.DataList", "datalist", false, html.DataList},
	{"html.Dd", "dd", false, html.Dd},
	{"html.Del", "del", false, html.Del},
	{"html.Dfn", "dfn", false, html.Dfn},
	{"html.Dt", "dt", false, html.Dt},
	{"html.Details", "details", false, html.Details},
	{"html.Dialog", "dialog", false, html.Dialog},
	{"html.Div", "div", false, html.Div},
	{"html.Dl", "dl", false, html.Dl},
	{"html.Em", "em", false, html.Em},
	{"html.Embed", "embed", true, html.Embed},
	{"html.Form", "form", false, html.Form},
	{"html.FieldSet", "fieldset", false, html.FieldSet},
	{"html.FigCaption", "figcaption", false, html.FigCaption},
	{"html.Figure", "figure", false, html.Figure},
	{"html.Footer", "footer", false, html.Footer},
	{"html.H1", "h1", false, html.H1},
	{"html.H2", "h2", false, html.H2},
	{"html.H3", "h3", false, html.H3},
	{"html.H4", "h4", false, html.H4},
	{"html.H5", "h5", false, html.H5},
	{"html.H6", "h6", false, html.H6},
	{"html.Head", "head", false, html.Head},
	{"html.Header", "header", false, html.Header},
	{"html.HGroup", "hgroup", false, html.HGroup},
	{"html.Hr", "hr", true, html.Hr},
	{"html.Html", "html", false, html.Html},
	{"html.I", "i", false, html.I},
	{"html.IFrame", "iframe", false, html.IFrame},
	{"html.Img", "img", true, html.Img},
	{"html.Input", "input", true, html.Input},
	{"html.Ins", "ins", false, html.Ins},
	{"html.Kbd", "kbd", false, html.Kbd},
	{"html.Label", "label", false, html.Label},
	{"html.Legend", "legend", false, html.Legend},
	{"html.Li", "li", false, html.Li},
	{"html.Link", "link", true, html.Link},
	{"html.Main", "main", false, html.Main},
	{"html.Mark", "mark", false, html.Mark},
	{"html.Menu", "menu", false, html.Menu},
	{"html.Meta", "meta", true, html.Meta},
	{"html.Meter", "meter", false, html.Meter},
	{"html.Nav", "nav", false, html.Nav},
	{"html.NoScript", "noscript", false, html.NoScript},
	{"html.Object", "object", false, html.Object},
	{"html.Ol", "ol", false, html.Ol},
	{"html.OptGroup", "optgroup", false, html.OptGroup},
	{"html.Option", "option", false, html.Option},
	{"html.P", "p", false, html.P},
	{"html.Para", "p", false, html.Para},
	{"html.Param", "param", true, html.Param},
	{"html.Picture", "picture", false, html.Picture},
	{"html.Pre", "pre", false, html.Pre},
	{"html.Progress", "progress", false, html.Progress},
	{"html.Q", "q", false, html.Q},
	{"html.S", "s", false, html.S},
	{"html.Samp", "samp", false, html.Samp},
	{"html.Script", "script", false, html.Script},
	{"html.Section", "section", false, html.Section},
	{"html.Select", "select", false, html.Select},
	{"html.Slot", "slot", false, html.Slot},
	{"html.Small", "small", false, html.Small},
	{"html.Source", "source", true, html.Source},
	{"html.Span", "span", false, html.Span},
	{"html.Strong", "strong", false, html.Strong},
	{"html.StyleElement", "style", false, html.StyleElement},
	{"html.Sub", "sub", false, html.Sub},
	{"html.Sup", "sup", false, html.Sup},
	{"html.Summary", "summary", false, html.Summary},
	{"html.Table", "table", false, html.Table},
	{"html.TBody", "tbody", false, html.TBody},
	{"html.Td", "td", false, html.Td},
	{"html.Template", "template", false, html.Template},
	{"html.Textarea", "textarea", false, html.Textarea},
	{"html.TFoot", "tfoot", false, html.TFoot},
	{"html.Th", "th", false, html.Th},
	{"html.THead", "thead", false, html.THead},
	{"html.Time", "time", false, html.Time},
	{"html.TitleElement", "title", false, html.TitleElement},
	{"html.Tr", "tr", false, html.Tr},
	{"html.Ul", "ul", false, html.Ul},
	{"html.U", "u", false, html.U},
	{"html.Var", "var", false, html.Var},
	{"html.Video", "video", false, html.Video},
	{"html.Wbr", "wbr", true, html.Wbr},
	{"html.Bdi", "bdi", false, html.Bdi},
	{"html.Bdo", "bdo", false, html.Bdo},
	{"html.Map", "map", false, html.Map},
	{"html.Output", "output", false, html.Output},
	{"html.Rp", "rp", false, html.Rp},
	{"html.Rt", "rt", false, html.Rt},
	{"html.Ruby", "ruby", false, html.Ruby},
	{"html.Search", "search", false, html.Search},
	{"html.Track", "track", false, html.Track},
	{"svg.Svg", "svg", false, svg.Svg},
	{"svg.AltGlyph", "altGlyph", false, svg.AltGlyph},
	{"svg.Animate", "animate", false, svg.Animate},
	{"svg.AnimateMotion", "animateMotion", false, svg.AnimateMotion},
	{"svg.AnimateTransform", "animateTransform", false, svg.AnimateTransform},
	{"svg.Circle", "circle", false, svg.Circle},
	{"svg.ClipPath", "clipPath", false, svg.ClipPath},
	{"svg.Defs", "defs", false, svg.Defs},
	{"svg.Desc", "desc", false, svg.Desc},
	{"svg.Discard", "discard", false, svg.Discard},
	{"svg.Ellipse", "ellipse", false, svg.Ellipse},
	{"svg.FeBlend", "feBlend", false, svg.FeBlend},
	{"svg.FeColorMatrix", "feColorMatrix", false, svg.FeColorMatrix},
	{"svg.FeComponentTransfer", "feComponentTransfer", false, svg.FeComponentTransfer},
	{"svg.FeComposite", "feComposite", false, svg.FeComposite},
	{"svg.FeConvolveMatrix", "feConvolveMatrix", false, svg.FeConvolveMatrix},
	{"svg.FeDiffuseLighting", "feDiffuseLighting", false, svg.FeDiffuseLighting},
	{"svg.FeDisplacementMap", "feDisplacementMap", false, svg.FeDisplacementMap},
	{"svg.FeDistantLight", "feDistantLight", false, svg.FeDistantLight},
	{"svg.FeDropShadow", "feDropShadow", false, svg.FeDropShadow},
	{"svg.FeFlood", "feFlood", false, svg.FeFlood},
	{"svg.FeFuncA", "feFuncA", false, svg.FeFuncA},
	{"svg.FeFuncB", "feFuncB", false, svg.FeFuncB},
	{"svg.FeFuncG", "feFuncG", false, svg.FeFuncG},
	{"svg.FeFuncR", "feFuncR", false, svg.FeFuncR},
	{"svg.FeGaussianBlur", "feGaussianBlur", false, svg.FeGaussianBlur},
	{"svg.FeImage", "feImage", false, svg.FeImage},
	{"svg.FeMerge", "feMerge", false, svg.FeMerge},
	{"svg.FeMergeNode", "feMergeNode", false, svg.FeMergeNode},
	{"svg.FeMorphology", "feMorphology", false, svg.FeMorphology},
	{"svg.FeOffset", "feOffset", false, svg.FeOffset},
	{"svg.FePointLight", "fePointLight", false, svg.FePointLight},
	{"svg.FeSpecularLighting", "feSpecularLighting", false, svg.FeSpecularLighting},
	{"svg.FeSpotLight", "feSpotLight", false, svg.FeSpotLight},
	{"svg.FeTile", "feTile", false, svg.FeTile},
	{"svg.FeTurbulence", "feTurbulence", false, svg.FeTurbulence},
	{"svg.Filter", "filter", false, svg.Filter},
	{"svg.ForeignObject", "foreignObject", false, svg.ForeignObject},
	{"svg.G", "g", false, svg.G},
	{"svg.Glyph", "glyph", false, svg.Glyph},
	{"svg.Line", "line", false, svg.Line},
	{"svg.LinearGradient", "linearGradient", false, svg.LinearGradient},
	{"svg.Marker", "marker", false, svg.Marker},
	{"svg.Mask", "mask", false, svg.Mask},
	{"svg.Metadata", "metadata", false, svg.Metadata},
	{"svg.Mpath", "mpath", false, svg.Mpath},
	{"svg.Path", "path", false, svg.Path},
	{"svg.Pattern", "pattern", false, svg.Pattern},
	{"svg.Polygon", "polygon", false, svg.Polygon},
	{"svg.Polyline", "polyline", false, svg.Polyline},
	{"svg.RadialGradient", "radialGradient", false, svg.RadialGradient},
	{"svg.Rect", "rect", false, svg.Rect},
	{"svg.Script", "script", false, svg.Script},
	{"svg.Set", "set", false, svg.Set},
	{"svg.SolidColor", "solidcolor", false, svg.SolidColor},
	{"svg.Stop", "stop", false, svg.Stop},
	{"svg.StyleElement", "style", false, svg.StyleElement},
	{"svg.Symbol", "symbol", false, svg.Symbol},
	{"svg.TextElement", "text", false, svg.TextElement},
	{"svg.TextPath", "textPath", false, svg.TextPath},
	{"svg.Title", "title", false, svg.Title},
	{"svg.TRef", "tref", false, svg.TRef},
	{"svg.TSpan", "tspan", false, svg.TSpan},
	{"svg.Use", "use", false, svg.Use},
	{"svg.Switch", "switch", false, svg.Switch},
	{"svg.View", "view", false, svg.View},
}

var regAttrs = []regAttr{
	{"html.Async", "async", "battr", "", func(...any) aitch.Node { return html.Async() }},
	{"html.AutoFocus", "autofocus", "battr", "", func(...any) aitch.Node { return html.AutoFocus() }},
	{"html.AutoPlay", "autoplay", "battr", "", func(...any) aitch.Node { return html.AutoPlay() }},
	{"html.Checked", "checked", "battr", "", func(...any) aitch.Node { return html.Checked() }},
	{"html.Controls", "controls", "battr", "", func(...any) aitch.Node { return html.Controls() }},
	{"html.CrossOrigin", "crossorigin", "attr", "", html.CrossOrigin},
	{"html.DateTime", "datetime", "attr", "", html.DateTime},
	{"html.Defer", "defer", "battr", "", func(...any) aitch.Node { return html.Defer() }},
	{"html.Disabled", "disabled", "battr", "", func(...any) aitch.Node { return html.Disabled() }},
	{"html.Download", "download", "attr", "", html.Download},
	{"html.Draggable", "draggable", "attr", "", html.Draggable},
	{"html.Loop", "loop", "battr", "", func(...any) aitch.Node { return html.Loop() }},
	{"html.Multiple", "multiple", "battr", "", func(...any) aitch.Node { return html.Multiple() }},
	{"html.Muted", "muted", "battr", "", func(...any) aitch.Node { return html.Muted() }},
	{"html.PlaysInline", "playsinline", "battr", "", func(...any) aitch.Node { return html.PlaysInline() }},
	{"html.ReadOnly", "readonly", "battr", "", func(...any) aitch.Node { return html.ReadOnly() }},
	{"html.Required", "required", "battr", "", func(...any) aitch.Node { return html.Required() }},
	{"html.Selected", "selected", "battr", "", func(...any) aitch.Node { return html.Selected() }},
	{"html.Accept", "accept", "attr", "", html.Accept},
	{"html.Action", "action", "attr", "", html.Action},
	{"html.Alt", "alt", "attr", "", html.Alt},
	{"html.As", "as", "attr", "", html.As},
	{"html.AutoComplete", "autocomplete", "attr", "", html.AutoComplete},
	{"html.Charset", "charset", "attr", "", html.Charset},
	{"html.CiteAttr", "cite", "attr", "", html.CiteAttr},
	{"html.Class", "class", "dattr", " ", html.Class},
	{"html.Cols", "cols", "attr", "", html.Cols},
	{"html.ColSpan", "colspan", "attr", "", html.ColSpan},
	{"html.Content", "content", "attr", "", html.Content},
	{"html.ContentEditable", "contenteditable", "attr", "", html.ContentEditable},
	{"html.Dir", "dir", "attr", "", html.Dir},
	{"html.EncType", "enctype", "attr", "", html.EncType},
	{"html.For", "for", "attr", "", html.For},
	{"html.FormAttr", "form", "attr", "", html.FormAttr},
	{"html.NoValidate", "novalidate", "battr", "", func(...any) aitch.Node { return html.NoValidate() }},
	{"html.FormNoValidate", "formnovalidate", "battr", "", func(...any) aitch.Node { return html.FormNoValidate() }},
	{"html.Height", "height", "attr", "", html.Height},
	{"html.Hidden", "hidden", "battr", "", func(...any) aitch.Node { return html.Hidden() }},
	{"html.Href", "href", "attr", "", html.Href},
	{"html.Id", "id", "attr", "", html.Id},
	{"html.Integrity", "integrity", "attr", "", html.Integrity},
	{"html.Lang", "lang", "attr", "", html.Lang},
	{"html.List", "list", "attr", "", html.List},
	{"html.Loading", "loading", "attr", "", html.Loading},
	{"html.Max", "max", "attr", "", html.Max},
	{"html.MaxLength", "maxlength", "attr", "", html.MaxLength},
	{"html.Method", "method", "attr", "", html.Method},
	{"html.Min", "min", "attr", "", html.Min},
	{"html.MinLength", "minlength", "attr", "", html.MinLength},
	{"html.Name", "name", "attr", "", html.Name},
	{"html.Pattern", "pattern", "attr", "", html.Pattern},
	{"html.Placeholder", "placeholder", "attr", "", html.Placeholder},
	{"html.PopOver", "popover", "attr", "", html.PopOver},
	{"html.PopOverTarget", "popovertarget", "attr", "", html.PopOverTarget},
	{"html.PopOverTargetAction", "popovertargetaction", "attr", "", html.PopOverTargetAction},
	{"html.Poster", "poster", "attr", "", html.Poster},
	{"html.Preload", "preload", "attr", "", html.Preload},
	{"html.ReferrerPolicy", "referrerpolicy", "attr", "", html.ReferrerPolicy},
	{"html.Rel", "rel", "attr", "", html.Rel},
	{"html.Role", "role", "attr", "", html.Role},
	{"html.Rows", "rows", "attr", "", html.Rows},
	{"html.RowSpan", "rowspan", "attr", "", html.RowSpan},
	{"html.SlotAttr", "slot", "attr", "", html.SlotAttr},
	{"html.Src", "src", "attr", "", html.Src},
	{"html.SrcSet", "srcset", "attr", "", html.SrcSet},
	{"html.Step", "step", "attr", "", html.Step},
	{"html.Style", "style", "dattr", "; ", html.Style},
	{"html.TabIndex", "tabindex", "attr", "", html.TabIndex},
	{"html.Target", "target", "attr", "", html.Target},
	{"html.Title", "title", "attr", "", html.Title},
	{"html.Type", "type", "attr", "", html.Type},
	{"html.Value", "value", "attr", "", html.Value},
	{"html.Width", "width", "attr", "", html.Width},
	{"html.AllowFullScreen", "allowfullscreen", "battr", "", func(...any) aitch.Node { return html.AllowFullScreen() }},
	{"html.Default", "default", "battr", "", func(...any) aitch.Node { return html.Default() }},
	{"html.Inert", "inert", "battr", "", func(...any) aitch.Node { return html.Inert() }},
	{"html.IsMap", "ismap", "battr", "", func(...any) aitch.Node { return html.IsMap() }},
	{"html.ItemScope", "itemscope", "battr", "", func(...any) aitch.Node { return html.ItemScope() }},
	{"html.NoModule", "nomodule", "battr", "", func(...any) aitch.Node { return html.NoModule() }},
	{"html.Open", "open", "battr", "", func(...any) aitch.Node { return html.Open() }},
	{"html.Reversed", "reversed", "battr", "", func(...any) aitch.Node { return html.Reversed() }},
	{"html.Spellcheck", "spellcheck", "battr", "", func(...any) aitch.Node { return html.Spellcheck() }},
	{"html.Translate", "translate", "battr", "", func(...any) aitch.Node { return html.Translate() }},
	{"html.AriaAtomic", "aria-atomic", "attr", "", html.AriaAtomic},
	{"html.AriaBusy", "aria-busy", "attr", "", html.AriaBusy},
	{"html.AriaChecked", "aria-checked", "attr", "", html.AriaChecked},
	{"html.AriaControls", "aria-controls", "attr", "", html.AriaControls},
	{"html.AriaDescribedBy", "aria-describedby", "attr", "", html.AriaDescribedBy},
	{"html.AriaDisabled", "aria-disabled", "attr", "", html.AriaDisabled},
	{"html.AriaExpanded", "aria-expanded", "attr", "", html.AriaExpanded},
	{"html.AriaFlowTo", "aria-flowto", "attr", "", html.AriaFlowTo},
	{"html.AriaHidden", "aria-hidden", "attr", "", html.AriaHidden},
	{"html.AriaInvalid", "aria-invalid", "attr", "", html.AriaInvalid},
	{"html.AriaLabel", "aria-label", "attr", "", html.AriaLabel},
	{"html.AriaLabelledBy", "aria-labelledby", "attr", "", html.AriaLabelledBy},
	{"html.AriaLive", "aria-live", "attr", "", html.AriaLive},
	{"html.AriaOwns", "aria-owns", "attr", "", html.AriaOwns},
	{"html.AriaPlaceholder", "aria-placeholder", "attr", "", html.AriaPlaceholder},
	{"html.AriaPosInSet", "aria-posinset", "attr", "", html.AriaPosInSet},
	{"html.AriaPressed", "aria-pressed", "attr", "", html.AriaPressed},
	{"html.AriaReadonly", "aria-readonly", "attr", "", html.AriaReadonly},
	{"html.AriaRelevant", "aria-relevant", "attr", "", html.AriaRelevant},
	{"html.AriaRequired", "aria-required", "attr", "", html.AriaRequired},
	{"html.AriaSelected", "aria-selected", "attr", "", html.AriaSelected},
	{"html.AriaSetSize", "aria-setsize", "attr", "", html.AriaSetSize},
	{"html.AriaValueMax", "aria-valuemax", "attr", "", html.AriaValueMax},
	{"html.AriaValueMin", "aria-valuemin", "attr", "", html.AriaValueMin},
	{"html.AriaValueNow", "aria-valuenow", "attr", "", html.AriaValueNow},
	{"html.AriaValueText", "aria-valuetext", "attr", "", html.AriaValueText},
	{"html.OnAbort", "onabort", "attr", "", html.OnAbort},
	{"html.OnBeforeUnload", "onbeforeunload", "attr", "", html.OnBeforeUnload},
	{"html.OnBlur", "onblur", "attr", "", html.OnBlur},
	{"html.OnCanPlay", "oncanplay", "attr", "", html.OnCanPlay},
	{"html.OnCanPlayThrough", "oncanplaythrough", "attr", "", html.OnCanPlayThrough},
	{"html.OnChange", "onchange", "attr", "", html.OnChange},
	{"html.OnClick", "onclick", "attr", "", html.OnClick},
	{"html.OnContextMenu", "oncontextmenu", "attr", "", html.OnContextMenu},
	{"html.OnCopy", "oncopy", "attr", "", html.OnCopy},
	{"html.OnCut", "oncut", "attr", "", html.OnCut},
	{"html.OnDblClick", "ondblclick", "attr", "", html.OnDblClick},
	{"html.OnDrag", "ondrag", "attr", "", html.OnDrag},
	{"html.OnDragEnd", "ondragend", "attr", "", html.OnDragEnd},
	{"html.OnDragEnter", "ondragenter", "attr", "", html.OnDragEnter},
	{"html.OnDragLeave", "ondragleave", "attr", "", html.OnDragLeave},
	{"html.OnDragOver", "ondragover", "attr", "", html.OnDragOver},
	{"html.OnDragStart", "ondragstart", "attr", "", html.OnDragStart},
	{"html.OnDrop", "ondrop", "attr", "", html.OnDrop},
	{"html.OnDurationChange", "ondurationchange", "attr", "", html.OnDurationChange},
	{"html.OnEnded", "onended", "attr", "", html.OnEnded},
	{"html.OnError", "onerror", "attr", "", html.OnError},
	{"html.OnFocus", "onfocus", "attr", "", html.OnFocus},
	{"html.OnHashChange", "onhashchange", "attr", "", html.OnHashChange},
	{"html.OnInput", "oninput", "attr", "", html.OnInput},
	{"html.OnInvalid", "oninvalid", "attr", "", html.OnInvalid},
	{"html.OnKeyDown", "onkeydown", "attr", "", html.OnKeyDown},
	{"html.OnKeyPress", "onkeypress", "attr", "", html.OnKeyPress},
	{"html.OnKeyUp", "onkeyup", "attr", "", html.OnKeyUp},
	{"html.OnLoad", "onload", "attr", "", html.OnLoad},
	{"html.OnLoadedData", "onloadeddata", "attr", "", html.OnLoadedData},
	{"html.OnLoadedMetadata", "onloadedmetadata", "attr", "", html.OnLoadedMetadata},
	{"html.OnMouseDown", "onmousedown", "attr", "", html.OnMouseDown},
	{"html.OnMouseEnter", "onmouseenter", "attr", "", html.OnMouseEnter},
	{"html.OnMouseLeave", "onmouseleave", "attr", "", html.OnMouseLeave},
	{"html.OnMouseMove", "onmousemove", "attr", "", html.OnMouseMove},
	{"html.OnMouseOut", "onmouseout", "attr", "", html.OnMouseOut},
	{"html.OnMouseOver", "onmouseover", "attr", "", html.OnMouseOver},
	{"html.OnMouseUp", "onmouseup", "attr", "", html.OnMouseUp},
	{"html.OnPageHide", "onpagehide", "attr", "", html.OnPageHide},
	{"html.OnPageShow", "onpageshow", "attr", "", html.OnPageShow},
	{"html.OnPaste", "onpaste", "attr", "", html.OnPaste},
	{"html.OnPause", "onpause", "attr", "", html.OnPause},
	{"html.OnPlay", "onplay", "attr", "", html.OnPlay},
	{"html.OnPlaying", "onplaying", "attr", "", html.OnPlaying},
	{"html.OnPopState", "onpopstate", "attr", "", html.OnPopState},
	{"html.OnProgress", "onprogress", "attr", "", html.OnProgress},
	{"html.OnRateChange", "onratechange", "attr", "", html.OnRateChange},
	{"html.OnReset", "onreset", "attr", "", html.OnReset},
	{"html.OnResize", "onresize", "attr", "", html.OnResize},
	{"html.OnScroll", "onscroll", "attr", "", html.OnScroll},
	{"html.OnSeeked", "onseeked", "attr", "", html.OnSeeked},
	{"html.OnSeeking", "onseeking", "attr", "", html.OnSeeking},
	{"html.OnSelect", "onselect", "attr", "", html.OnSelect},
	{"html.OnStalled", "onstalled", "attr", "", html.OnStalled},
	{"html.OnSubmit", "onsubmit", "attr", "", html.OnSubmit},
	{"html.OnSuspend", "onsuspend", "attr", "", html.OnSuspend},
	{"html.OnTimeUpdate", "ontimeupdate", "attr", "", html.OnTimeUpdate},
	{"html.OnToggle", "ontoggle", "attr", "", html.OnToggle},
	{"html.OnUnload", "onunload", "attr", "", html.OnUnload},
	{"html.OnVolumeChange", "onvolumechange", "attr", "", html.OnVolumeChange},
	{"html.OnWaiting", "onwaiting", "attr", "", html.OnWaiting},
	{"html.OnPointerDown", "onpointerdown", "attr", "", html.OnPointerDown},
	{"html.OnPointerUp", "onpointerup", "attr", "", html.OnPointerUp},
	{"html.OnPointerMove", "onpointermove", "attr", "", html.OnPointerMove},
	{"html.OnPointerEnter", "onpointerenter", "attr", "", html.OnPointerEnter},
	{"html.OnPointerLeave", "onpointerleave", "attr", "", html.OnPointerLeave},
	{"html.OnPointerOver", "onpointerover", "attr", "", html.OnPointerOver},
	{"html.OnPointerOut", "onpointerout", "attr", "", html.OnPointerOut},
	{"html.OnPointerCancel", "onpointercancel", "attr", "", html.OnPointerCancel},
	{"html.OnTouchStart", "ontouchstart", "attr", "", html.OnTouchStart},
	{"html.OnTouchMove", "ontouchmove", "attr", "", html.OnTouchMove},
	{"html.OnTouchEnd", "ontouchend", "attr", "", html.OnTouchEnd},
	{"html.OnTouchCancel", "ontouchcancel", "attr", "", html.OnTouchCancel},
	{"html.OnAnimationStart", "onanimationstart", "attr", "", html.OnAnimationStart},
	{"html.OnAnimationEnd", "onanimationend", "attr", "", html.OnAnimationEnd},
	{"html.OnAnimationIteration", "onanimationiteration", "attr", "", html.OnAnimationIteration},
	{"html.OnTransitionEnd", "ontransitionend", "attr", "", html.OnTransitionEnd},
	{"html.OnBeforeInput", "onbeforeinput", "attr", "", html.OnBeforeInput},
	{"html.OnSlotChange", "onslotchange", "attr", "", html.OnSlotChange},
	{"html.OnFormData", "onformdata", "attr", "", html.OnFormData},
	{"html.AccessKey", "accesskey", "attr", "", html.AccessKey},
	{"html.AutoCapitalize", "autocapitalize", "attr", "", html.AutoCapitalize},
	{"html.AutoCorrect", "autocorrect", "attr", "", html.AutoCorrect},
	{"html.EnterKeyHint", "enterkeyhint", "attr", "", html.EnterKeyHint},
	{"html.ExportParts", "exportparts", "attr", "", html.ExportParts},
	{"html.InputMode", "inputmode", "attr", "", html.InputMode},
	{"html.Is", "is", "attr", "", html.Is},
	{"html.ItemId", "itemid", "attr", "", html.ItemId},
	{"html.ItemProp", "itemprop", "attr", "", html.ItemProp},
	{"html.ItemRef", "itemref", "attr", "", html.ItemRef},
	{"html.ItemType", "itemtype", "attr", "", html.ItemType},
	{"html.Nonce", "nonce", "attr", "", html.Nonce},
	{"html.Part", "part", "attr", "", html.Part},
	{"html.WritingSuggestions", "writingsuggestions", "attr", "", html.WritingSuggestions},
	{"svg.Accumulate", "accumulate", "attr", "", svg.Accumulate},
	{"svg.Additive", "additive", "attr", "", svg.Additive},
	{"svg.AlignmentBaseline", "alignment-baseline", "attr", "", svg.AlignmentBaseline},
	{"svg.AttributeName", "attributeName", "attr", "", svg.AttributeName},
	{"svg.AttributeType", "attributeType", "attr", "", svg.AttributeType},
	{"svg.BaselineShift", "baseline-shift", "attr", "", svg.BaselineShift},
	{"svg.Begin", "begin", "attr", "", svg.Begin},
	{"svg.By", "by", "attr", "", svg.By},
	{"svg.CalcMode", "calcMode", "attr", "", svg.CalcMode},
	{"svg.Class", "class", "attr", "", svg.Class},
	{"svg.Clip", "clip", "attr", "", svg.Clip},
	{"svg.ClipPathAttr", "clip-path", "attr", "", svg.ClipPathAttr},
	{"svg.ClipRule", "clip-rule", "attr", "", svg.ClipRule},
	{"svg.Color", "color", "attr", "", svg.Color},
	{"svg.ColorInterpolation", "color-interpolation", "attr", "", svg.ColorInterpolation},
	{"svg.ColorInterpolationFilters", "color-interpolation-filters", "attr", "", svg.ColorInterpolationFilters},
	{"svg.ColorProfile", "color-profile", "attr", "", svg.ColorProfile},
	{"svg.ColorRendering", "color-rendering", "attr", "", svg.ColorRendering},
	{"svg.Cursor", "cursor", "attr", "", svg.Cursor},
	{"svg.Cx", "cx", "attr", "", svg.Cx},
	{"svg.Cy", "cy", "attr", "", svg.Cy},
	{"svg.D", "d", "attr", "", svg.D},
	{"svg.Direction", "direction", "attr", "", svg.Direction},
	{"svg.Display", "display", "attr", "", svg.Display},
	{"svg.DominantBaseline", "dominant-baseline", "attr", "", svg.DominantBaseline},
	{"svg.Dur", "dur", "attr", "", svg.Dur},
	{"svg.Dx", "dx", "attr", "", svg.Dx},
	{"svg.Dy", "dy", "attr", "", svg.Dy},
	{"svg.EnableBackground", "enable-background", "attr", "", svg.EnableBackground},
	{"svg.End", "end", "attr", "", svg.End},
	{"svg.ExternalResourcesRequired", "externalResourcesRequired", "attr", "", svg.ExternalResourcesRequired},
	{"svg.Fill", "fill", "attr", "", svg.Fill},
	{"svg.FillOpacity", "fill-opacity", "attr", "", svg.FillOpacity},
	{"svg.FillRule", "fill-rule", "attr", "", svg.FillRule},
	{"svg.FilterAttr", "filter", "attr", "", svg.FilterAttr},
	{"svg.FilterUnits", "filterUnits", "attr", "", svg.FilterUnits},
	{"svg.FloodColor", "flood-color", "attr", "", svg.FloodColor},
	{"svg.FloodOpacity", "flood-opacity", "attr", "", svg.FloodOpacity},
	{"svg.FontFamily", "font-family", "attr", "", svg.FontFamily},
	{"svg.FontSize", "font-size", "attr", "", svg.FontSize},
	{"svg.FontSizeAdjust", "font-size-adjust", "attr", "", svg.FontSizeAdjust},
	{"svg.FontStretch", "font-stretch", "attr", "", svg.FontStretch},
	{"svg.FontStyle", "font-style", "attr", "", svg.FontStyle},
	{"svg.FontVariant", "font-variant", "attr", "", svg.FontVariant},
	{"svg.FontWeight", "font-weight", "attr", "", svg.FontWeight},
	{"svg.From", "from", "attr", "", svg.From},
	{"svg.Fx", "fx", "attr", "", svg.Fx},
	{"svg.Fy", "fy", "attr", "", svg.Fy},
	{"svg.GlyphOrientationHorizontal", "glyph-orientation-horizontal", "attr", "", svg.GlyphOrientationHorizontal},
	{"svg.GlyphOrientationVertical", "glyph-orientation-vertical", "attr", "", svg.GlyphOrientationVertical},
	{"svg.GradientTransform", "gradientTransform", "attr", "", svg.GradientTransform},
	{"svg.GradientUnits", "gradientUnits", "attr", "", svg.GradientUnits},
	{"svg.Height", "height", "attr", "", svg.Height},
	{"svg.Href", "href", "attr", "", svg.Href},
	{"svg.Id", "id", "attr", "", svg.Id},
	{"svg.ImageRendering", "image-rendering", "attr", "", svg.ImageRendering},
	{"svg.Kerning", "kerning", "attr", "", svg.Kerning},
	{"svg.KeyPoints", "keyPoints", "attr", "", svg.KeyPoints},
	{"svg.KeySplines", "keySplines", "attr", "", svg.KeySplines},
	{"svg.KeyTimes", "keyTimes", "attr", "", svg.KeyTimes},
	{"svg.LengthAdjust", "lengthAdjust", "attr", "", svg.LengthAdjust},
	{"svg.LetterSpacing", "letter-spacing", "attr", "", svg.LetterSpacing},
	{"svg.LightingColor", "lighting-color", "attr", "", svg.LightingColor},
	{"svg.MarkerEnd", "marker-end", "attr", "", svg.MarkerEnd},
	{"svg.MarkerMid", "marker-mid", "attr", "", svg.MarkerMid},
	{"svg.MarkerStart", "marker-start", "attr", "", svg.MarkerStart},
	{"svg.MarkerHeight", "markerHeight", "attr", "", svg.MarkerHeight},
	{"svg.MarkerUnits", "markerUnits", "attr", "", svg.MarkerUnits},
	{"svg.MarkerWidth", "markerWidth", "attr", "", svg.MarkerWidth},
	{"svg.MaskAttr", "mask", "attr", "", svg.MaskAttr},
	{"svg.OnBlur", "onblur", "attr", "", svg.OnBlur},
	{"svg.OnClick", "onclick", "attr", "", svg.OnClick},
	{"svg.OnFocus", "onfocus", "attr", "", svg.OnFocus},
	{"svg.OnLoad", "onload", "attr", "", svg.OnLoad},
	{"svg.OnMouseDown", "onmousedown", "attr", "", svg.OnMouseDown},
	{"svg.OnMouseMove", "onmousemove", "attr", "", svg.OnMouseMove},
	{"svg.OnMouseOut", "onmouseout", "attr", "", svg.OnMouseOut},
	{"svg.OnMouseOver", "onmouseover", "attr", "", svg.OnMouseOver},
	{"svg.OnMouseUp", "onmouseup", "attr", "", svg.OnMouseUp},
	{"svg.OnUnload", "onunload", "attr", "", svg.OnUnload},
	{"svg.Opacity", "opacity", "attr", "", svg.Opacity},
	{"svg.Orient", "orient", "attr", "", svg.Orient},
	{"svg.PathAttr", "path", "attr", "", svg.PathAttr},
	{"svg.PathLength", "pathLength", "attr", "", svg.PathLength},
	{"svg.PatternContentUnits", "patternContentUnits", "attr", "", svg.PatternContentUnits},
	{"svg.PatternTransform", "patternTransform", "attr", "", svg.PatternTransform},
	{"svg.PatternUnits", "patternUnits", "attr", "", svg.PatternUnits},
	{"svg.PointerEvents", "pointer-events", "attr", "", svg.PointerEvents},
	{"svg.Points", "points", "attr", "", svg.Points},
	{"svg.PreserveAspectRatio", "preserveAspectRatio", "attr", "", svg.PreserveAspectRatio},
	{"svg.PrimitiveUnits", "primitiveUnits", "attr", "", svg.PrimitiveUnits},
	{"svg.R", "r", "attr", "", svg.R},
	{"svg.RefX", "refX", "attr", "", svg.RefX},
	{"svg.RefY", "refY", "attr", "", svg.RefY},
	{"svg.RepeatCount", "repeatCount", "attr", "", svg.RepeatCount},
	{"svg.RepeatDur", "repeatDur", "attr", "", svg.RepeatDur},
	{"svg.RequiredExtensions", "requiredExtensions", "attr", "", svg.RequiredExtensions},
	{"svg.RequiredFeatures", "requiredFeatures", "attr", "", svg.RequiredFeatures},
	{"svg.Rotate", "rotate", "attr", "", svg.Rotate},
	{"svg.Rx", "rx", "attr", "", svg.Rx},
	{"svg.Ry", "ry", "attr", "", svg.Ry},
	{"svg.ShapeRendering", "shape-rendering", "attr", "", svg.ShapeRendering},
	{"svg.SpreadMethod", "spreadMethod", "attr", "", svg.SpreadMethod},
	{"svg.StopColor", "stop-color", "attr", "", svg.StopColor},
	{"svg.StopOpacity", "stop-opacity", "attr", "", svg.StopOpacity},
	{"svg.Stroke", "stroke", "attr", "", svg.Stroke},
	{"svg.StrokeDashArray", "stroke-dasharray", "attr", "", svg.StrokeDashArray},
	{"svg.StrokeDashOffset", "stroke-dashoffset", "attr", "", svg.StrokeDashOffset},
	{"svg.StrokeLineCap", "stroke-linecap", "attr", "", svg.StrokeLineCap},
	{"svg.StrokeLineJoin", "stroke-linejoin", "attr", "", svg.StrokeLineJoin},
	{"svg.StrokeMiterLimit", "stroke-miterlimit", "attr", "", svg.StrokeMiterLimit},
	{"svg.StrokeOpacity", "stroke-opacity", "attr", "", svg.StrokeOpacity},
	{"svg.StrokeWidth", "stroke-width", "attr", "", svg.StrokeWidth},
	{"svg.Style", "style", "dattr", "; ", svg.Style},
	{"svg.SystemLanguage", "systemLanguage", "attr", "", svg.SystemLanguage},
	{"svg.TabIndex", "tabindex", "attr", "", svg.TabIndex},
	{"svg.TextAnchor", "text-anchor", "attr", "", svg.TextAnchor},
	{"svg.TextDecoration", "text-decoration", "attr", "", svg.TextDecoration},
	{"svg.TextRendering", "text-rendering", "attr", "", svg.TextRendering},
	{"svg.TextLength", "textLength", "attr", "", svg.TextLength},
	{"svg.To", "to", "attr", "", svg.To},
	{"svg.Type", "type", "attr", "", svg.Type},
	{"svg.UnicodeBidi", "unicode-bidi", "attr", "", svg.UnicodeBidi},
	{"svg.Values", "values", "attr", "", svg.Values},
	{"svg.Visibility", "visibility", "attr", "", svg.Visibility},
	{"svg.Width", "width", "attr", "", svg.Width},
	{"svg.WordSpacing", "word-spacing", "attr", "", svg.WordSpacing},
	{"svg.WritingMode", "writing-mode", "attr", "", svg.WritingMode},
	{"svg.X", "x", "attr", "", svg.X},
	{"svg.X1", "x1", "attr", "", svg.X1},
	{"svg.X2", "x2", "attr", "", svg.X2},
	{"svg.XlinkActuate", "xlink:actuate", "attr", "", svg.XlinkActuate},
	{"svg.XlinkArcrole", "xlink:arcrole", "attr", "", svg.XlinkArcrole},
	{"svg.XlinkHref", "xlink:href", "attr", "", svg.XlinkHref},
	{"svg.XlinkRole", "xlink:role", "attr", "", svg.XlinkRole},
	{"svg.XlinkShow", "xlink:show", "attr", "", svg.XlinkShow},
	{"svg.XlinkTitle", "xlink:title", "attr", "", svg.XlinkTitle},
	{"svg.XmlBase", "xml:base", "attr", "", svg.XmlBase},
	{"svg.XmlLang", "xml:lang", "attr", "", svg.XmlLang},
	{"svg.XmlSpace", "xml:space", "attr", "", svg.XmlSpace},
	{"svg.Y", "y", "attr", "", svg.Y},
	{"svg.Y1", "y1", "attr", "", svg.Y1},
	{"svg.Y2", "y2", "attr", "", svg.Y2},
	{"htmx.Get", "hx-get", "attr", "", htmx.Get},
	{"htmx.Post", "hx-post", "attr", "", htmx.Post},
	{"htmx.Put", "hx-put", "attr", "", htmx.Put},
	{"htmx.Delete", "hx-delete", "attr", "", htmx.Delete},
	{"htmx.Patch", "hx-patch", "attr", "", htmx.Patch},
	{"htmx.Target", "hx-target", "attr", "", htmx.Target},
	{"htmx.Swap", "hx-swap", "attr", "", htmx.Swap},
	{"htmx.SwapOob", "hx-swap-oob", "attr", "", htmx.SwapOob},
	{"htmx.Trigger", "hx-trigger", "dattr", " ", htmx.Trigger},
	{"htmx.Include", "hx-include", "attr", "", htmx.Include},
	{"htmx.Select", "hx-select", "attr", "", htmx.Select},
	{"htmx.Params", "hx-params", "dattr", " ", htmx.Params},
	{"htmx.PushURL", "hx-push-url", "attr", "", htmx.PushURL},
	{"htmx.ReplaceURL", "hx-replace-url", "attr", "", htmx.ReplaceURL},
	{"htmx.OnBeforeRequest", "hx-on:before-request", "attr", "", htmx.OnBeforeRequest},
	{"htmx.OnSend", "hx-on:send", "attr", "", htmx.OnSend},
	{"htmx.OnAfterRequest", "hx-on:after-request", "attr", "", htmx.OnAfterRequest},
	{"htmx.OnBeforeSwap", "hx-on:before-swap", "attr", "", htmx.OnBeforeSwap},
	{"htmx.OnAfterSwap", "hx-on:after-swap", "attr", "", htmx.OnAfterSwap},
	{"htmx.OnResponseError", "hx-on:response-error", "attr", "", htmx.OnResponseError},
	{"htmx.OnSendError", "hx-on:send-error", "attr", "", htmx.OnSendError},
	{"htmx.Confirm", "hx-confirm", "attr", "", htmx.Confirm},
	{"htmx.Disable", "hx-disable", "attr", "", htmx.Disable},
	{"htmx.DisabledElt", "hx-disabled-elt", "attr", "", htmx.DisabledElt},
	{"htmx.Boost", "hx-boost", "attr", "", htmx.Boost},
	{"htmx.Ext", "hx-ext", "attr", "", htmx.Ext},
	{"htmx.Encoding", "hx-encoding", "attr", "", htmx.Encoding},
	{"htmx.HistoryElt", "hx-history-elt", "attr", "", htmx.HistoryElt},
	{"htmx.Indicator", "hx-indicator", "attr", "", htmx.Indicator},
	{"htmx.Request", "hx-request", "attr", "", htmx.Request},
	{"htmx.Vals", "hx-vals", "attr", "", htmx.Vals},
	{"htmx.Vars", "hx-vars", "dattr", ", ", htmx.Vars},
	{"htmx.Inherit", "hx-inherit", "dattr", " ", htmx.Inherit},
	{"htmx.Disinherit", "hx-disinherit", "dattr", " ", htmx.Disinherit},
	{"htmx.Sync", "hx-sync", "attr", "", htmx.Sync},
	{"htmx.Preserve", "hx-preserve", "attr", "", htmx.Preserve},
	{"htmx.Prompt", "hx-prompt", "attr", "", htmx.Prompt},
	{"htmx.Validate", "hx-validate", "attr", "", htmx.Validate},
}

var regProps = []regProp{
	{"css.Display", "display:", css.Display},
	{"css.Position", "position:", css.Position},
	{"css.Top", "top:", css.Top},
	{"css.Right", "right:", css.Right},
	{"css.Bottom", "bottom:", css.Bottom},
	{"css.Left", "left:", css.Left},
	{"css.ZIndex", "z-index:", css.ZIndex},
	{"css.Float", "float:", css.Float},
	{"css.Clear", "clear:", css.Clear},
	{"css.Flex", "flex:", css.Flex},
	{"css.FlexGrow", "flex-grow:", css.FlexGrow},
	{"css.FlexShrink", "flex-shrink:", css.FlexShrink},
	{"css.FlexBasis", "flex-basis:", css.FlexBasis},
	{"css.JustifyContent", "justify-content:", css.JustifyContent},
	{"css.AlignItems", "align-items:", css.AlignItems},
	{"css.AlignContent", "align-content:", css.AlignContent},
	{"css.AlignSelf", "align-self:", css.AlignSelf},
	{"css.Gap", "gap:", css.Gap},
	{"css.RowGap", "row-gap:", css.RowGap},
	{"css.ColumnGap", "column-gap:", css.ColumnGap},
	{"css.Width", "width:", css.Width},
	{"css.Height", "height:", css.Height},
	{"css.MinWidth", "min-width:", css.MinWidth},
	{"css.MaxWidth", "max-width:", css.MaxWidth},
	{"css.MinHeight", "min-height:", css.MinHeight},
	{"css.MaxHeight", "max-height:", css.MaxHeight},
	{"css.Margin", "margin:", css.Margin},
	{"css.MarginTop", "margin-top:", css.MarginTop},
	{"css.MarginRight", "margin-right:", css.MarginRight},
	{"css.MarginBottom", "margin-bottom:", css.MarginBottom},
	{"css.MarginLeft", "margin-left:", css.MarginLeft},
	{"css.Padding", "padding:", css.Padding},
	{"css.PaddingTop", "padding-top:", css.PaddingTop},
	{"css.PaddingRight", "padding-right:", css.PaddingRight},
	{"css.PaddingBottom", "padding-bottom:", css.PaddingBottom},
	{"css.PaddingLeft", "padding-left:", css.PaddingLeft},
	{"css.Border", "border:", css.Border},
	{"css.BorderWidth", "border-width:", css.BorderWidth},
	{"css.BorderColor", "border-color:", css.BorderColor},
	{"css.BorderStyle", "border-style:", css.BorderStyle},
	{"css.BorderRadius", "border-radius:", css.BorderRadius},
	{"css.BorderTop", "border-top:", css.BorderTop},
	{"css.BorderBottom", "border-bottom:", css.BorderBottom},
	{"css.BorderLeft", "border-left:", css.BorderLeft},
	{"css.BorderRight", "border-right:", css.BorderRight},
	{"css.Background", "background:", css.Background},
	{"css.BackgroundColor", "background-color:", css.BackgroundColor},
	{"css.BackgroundImage", "background-image:", css.BackgroundImage},
	{"css.BackgroundSize", "background-size:", css.BackgroundSize},
	{"css.BackgroundPosition", "background-position:", css.BackgroundPosition},
	{"css.BackgroundRepeat", "background-repeat:", css.BackgroundRepeat},
	{"css.Color", "color:", css.Color},
	{"css.FontSize", "font-size:", css.FontSize},
	{"css.FontWeight", "font-weight:", css.FontWeight},
	{"css.FontFamily", "font-family:", css.FontFamily},
	{"css.LineHeight", "line-height:", css.LineHeight},
	{"css.LetterSpacing", "letter-spacing:", css.LetterSpacing},
	{"css.TextAlign", "text-align:", css.TextAlign},
	{"css.TextTransform", "text-transform:", css.TextTransform},
	{"css.TextDecoration", "text-decoration:", css.TextDecoration},
	{"css.WhiteSpace", "white-space:", css.WhiteSpace},
	{"css.WordBreak", "word-break:", css.WordBreak},
	{"css.Opacity", "opacity:", css.Opacity},
	{"css.BoxShadow", "box-shadow:", css.BoxShadow},
	{"css.Visibility", "visibility:", css.Visibility},
	{"css.Overflow", "overflow:", css.Overflow},
	{"css.OverflowX", "overflow-x:", css.OverflowX},
	{"css.OverflowY", "overflow-y:", css.OverflowY},
	{"css.Cursor", "cursor:", css.Cursor},
	{"css.Transition", "transition:", css.Transition},
	{"css.TransitionDuration", "transition-duration:", css.TransitionDuration},
	{"css.TransitionTimingFunction", "transition-timing-function:", css.TransitionTimingFunction},
	{"css.Transform", "transform:", css.Transform},
	{"css.Animation", "animation:", css.Animation},
	{"css.UserSelect", "user-select:", css.UserSelect},
	{"css.PointerEvents", "pointer-events:", css.PointerEvents},
	{"css.Isolation", "isolation:", css.Isolation},
	{"css.ObjectFit", "object-fit:", css.ObjectFit},
	{"css.ObjectPosition", "object-position:", css.ObjectPosition},
	{"css.BoxSizing", "box-sizing:", css.BoxSizing},
	{"css.AspectRatio", "aspect-ratio:", css.AspectRatio},
	{"css.Contain", "contain:", css.Contain},
	{"css.ContentVisibility", "content-visibility:", css.ContentVisibility},
	{"css.Resize", "resize:", css.Resize},
	{"css.GridTemplateColumns", "grid-template-columns:", css.GridTemplateColumns},
	{"css.GridTemplateRows", "grid-template-rows:", css.GridTemplateRows},
	{"css.GridColumn", "grid-column:", css.GridColumn},
	{"css.GridRow", "grid-row:", css.GridRow},
	{"css.GridArea", "grid-area:", css.GridArea},
	{"css.GridAutoFlow", "grid-auto-flow:", css.GridAutoFlow},
	{"css.PlaceItems", "place-items:", css.PlaceItems},
	{"css.PlaceContent", "place-content:", css.PlaceContent},
	{"css.PlaceSelf", "place-self:", css.PlaceSelf},
	{"css.FontStyle", "font-style:", css.FontStyle},
	{"css.FontVariant", "font-variant:", css.FontVariant},
	{"css.FontStretch", "font-stretch:", css.FontStretch},
	{"css.Direction", "direction:", css.Direction},
	{"css.TabSize", "tab-size:", css.TabSize},
	{"css.ListStyle", "list-style:", css.ListStyle},
	{"css.ListStyleType", "list-style-type:", css.ListStyleType},
	{"css.ListStylePosition", "list-style-position:", css.ListStylePosition},
	{"css.ListStyleImage", "list-style-image:", css.ListStyleImage},
	{"css.BorderCollapse", "border-collapse:", css.BorderCollapse},
	{"css.BorderSpacing", "border-spacing:", css.BorderSpacing},
	{"css.TableLayout", "table-layout:", css.TableLayout},
	{"css.EmptyCells", "empty-cells:", css.EmptyCells},
	{"css.Filter", "filter:", css.Filter},
	{"css.BackdropFilter", "backdrop-filter:", css.BackdropFilter},
	{"css.MixBlendMode", "mix-blend-mode:", css.MixBlendMode},
	{"css.BoxDecorationBreak", "box-decoration-break:", css.BoxDecorationBreak},
	{"css.ScrollBehavior", "scroll-behavior:", css.ScrollBehavior},
	{"css.ScrollSnapType", "scroll-snap-type:", css.ScrollSnapType},
	{"css.ScrollSnapAlign", "scroll-snap-align:", css.ScrollSnapAlign},
	{"css.ScrollMargin", "scroll-margin:", css.ScrollMargin},
	{"css.ScrollPadding", "scroll-padding:", css.ScrollPadding},
	{"css.AnimationName", "animation-name:", css.AnimationName},
	{"css.AnimationDuration", "animation-duration:", css.AnimationDuration},
	{"css.AnimationTimingFunction", "animation-timing-function:", css.AnimationTimingFunction},
	{"css.AnimationDelay", "animation-delay:", css.AnimationDelay},
	{"css.AnimationIterationCount", "animation-iteration-count:", css.AnimationIterationCount},
	{"css.AnimationDirection", "animation-direction:", css.AnimationDirection},
	{"css.AnimationFillMode", "animation-fill-mode:", css.AnimationFillMode},
	{"css.AnimationPlayState", "animation-play-state:", css.AnimationPlayState},
	{"css.TransitionProperty", "transition-property:", css.TransitionProperty},
	{"css.TransitionDelay", "transition-delay:", css.TransitionDelay},
	{"css.TouchAction", "touch-action:", css.TouchAction},
	{"css.WillChange", "will-change:", css.WillChange},
	{"css.CaretColor", "caret-color:", css.CaretColor},
	{"css.ScrollSnapStop", "scroll-snap-stop:", css.ScrollSnapStop},
	{"css.Speak", "speak:", css.Speak},
	{"css.PageBreakBefore", "page-break-before:", css.PageBreakBefore},
	{"css.PageBreakAfter", "page-break-after:", css.PageBreakAfter},
	{"css.PageBreakInside", "page-break-inside:", css.PageBreakInside},
}

var regUnits = []regUnit{
	{"css.Px", "px", css.Px},
	{"css.Pt", "pt", css.Pt},
	{"css.Pc", "pc", css.Pc},
	{"css.In", "in", css.In},
	{"css.Cm", "cm", css.Cm},
	{"css.Mm", "mm", css.Mm},
	{"css.Em", "em", css.Em},
	{"css.Rem", "rem", css.Rem},
	{"css.Percent", "%", css.Percent},
	{"css.Vw", "vw", css.Vw},
	{"css.Vh", "vh", css.Vh},
	{"css.VMin", "vmin", css.VMin},
	{"css.VMax", "vmax", css.VMax},
	{"css.Ch", "ch", css.Ch},
	{"css.Ex", "ex", css.Ex},
}

var genHtmlElems = map[string]string{
	"a":          "html.A",
	"abbr":       "html.Abbr",
	"address":    "html.Address",
	"area":       "html.Area",
	"article":    "html.Article",
	"aside":      "html.Aside",
	"audio":      "html.Audio",
	"b":          "html.B",
	"base":       "html.Base",
	"blockquote": "html.BlockQuote",
	"body":       "html.Body",
	"br":         "html.Br",
	"button":     "html.Button",
	"canvas":     "html.Canvas",
	"caption":    "html.Caption",
	"cite":       "html.Cite",
	"code":       "html.Code",
	"col":        "html.Col",
	"colgroup":   "html.ColGroup",
	"data":       "html.DataElement",
	"datalist":   "html.DataList",
	"dd":         "html.Dd",
	"del":        "html.Del",
	"details":    "html.Details",
	"dfn":        "html.Dfn",
	"dialog":     "html.Dialog",
	"div":        "html.Div",
	"dl":         "html.Dl",
	"dt":         "html.Dt",
	"em":         "html.Em",
	"embed":      "html.Embed",
	"fieldset":   "html.FieldSet",
	"figcaption": "html.FigCaption",
	"figure":     "html.Figure",
	"footer":     "html.Footer",
	"form":       "html.Form",
	"h1":         "html.H1",
	"h2":         "html.H2",
	"h3":         "html.H3",
	"h4":         "html.H4",
	"h5":         "html.H5",
	"h6":         "html.H6",
	"head":       "html.Head",
	"header":     "html.Header",
	"hgroup":     "html.HGroup",
	"hr":         "html.Hr",
	"html":       "html.Html",
	"i":          "html.I",
	"iframe":     "html.IFrame",
	"img":        "html.Img",
	"input":      "html.Input",
	"ins":        "html.Ins",
	"kbd":        "html.Kbd",
	"label":      "html.Label",
	"legend":     "html.Legend",
	"li":         "html.Li",
	"link":       "html.Link",
	"main":       "html.Main",
	"mark":       "html.Mark",
	"menu":       "html.Menu",
	"meta":       "html.Meta",
	"meter":      "html.Meter",
	"nav":        "html.Nav",
	"noscript":   "html.NoScript",
	"object":     "html.Object",
	"ol":         "html.Ol",
	"optgroup":   "html.OptGroup",
	"option":     "html.Option",
	"p":          "html.P",
	"param":      "html.Param",
	"picture":    "html.Picture",
	"pre":        "html.Pre",
	"progress":   "html.Progress",
	"q":          "html.Q",
	"s":          "html.S",
	"samp":       "html.Samp",
	"script":     "html.Script",
	"section":    "html.Section",
	"select":     "html.Select",
	"slot":       "html.Slot",
	"small":      "html.Small",
	"source":     "html.Source",
	"span":       "html.Span",
	"strong":     "html.Strong",
	"style":      "html.StyleElement",
	"sub":        "html.Sub",
	"summary":    "html.Summary",
	"sup":        "html.Sup",
	"table":      "html.Table",
	"tbody":      "html.TBody",
	"td":         "html.Td",
	"template":   "html.Template",
	"textarea":   "html.Textarea",
	"tfoot":      "html.TFoot",
	"th":         "html.Th",
	"thead":      "html.THead",
	"time":       "html.Time",
	"title":      "html.TitleElement",
	"tr":         "html.Tr",
	"u":          "html.U",
	"ul":         "html.Ul",
	"var":        "html.Var",
	"video":      "html.Video",
	"wbr":        "html.Wbr",
}

var genHtmlAttrs = map[string]string{
	"accept":              "html.Accept",
	"action":              "html.Action",
	"allowfullscreen":     "html.AllowFullScreen",
	"alt":                 "html.Alt",
	"aria-":               "html.Aria",
	"aria-atomic":         "html.AriaAtomic",
	"aria-busy":           "html.AriaBusy",
	"aria-checked":        "html.AriaChecked",
	"aria-controls":       "html.AriaControls",
	"aria-describedby":    "html.AriaDescribedBy",
	"aria-disabled":       "html.AriaDisabled",
	"aria-expanded":       "html.AriaExpanded",
	"aria-flowto":         "html.AriaFlowTo",
	"aria-hidden":         "html.AriaHidden",
	"aria-invalid":        "html.AriaInvalid",
	"aria-label":          "html.AriaLabel",
	"aria-labelledby":     "html.AriaLabelledBy",
	"aria-live":           "html.AriaLive",
	"aria-owns":           "html.AriaOwns",
	"aria-placeholder":    "html.AriaPlaceholder",
	"aria-posinset":       "html.AriaPosInSet",
	"aria-pressed":        "html.AriaPressed",
	"aria-readonly":       "html.AriaReadonly",
	"aria-relevant":       "html.AriaRelevant",
	"aria-required":       "html.AriaRequired",
	"aria-selected":       "html.AriaSelected",
	"aria-setsize":        "html.AriaSetSize",
	"aria-valuemax":       "html.AriaValueMax",
	"aria-valuemin":       "html.AriaValueMin",
	"aria-valuenow":       "html.AriaValueNow",
	"aria-valuetext":      "html.AriaValueText",
	"as":                  "html.As",
	"async":               "html.Async",
	"autocomplete":        "html.AutoComplete",
	"autofocus":           "html.AutoFocus",
	"autoplay":            "html.AutoPlay",
	"charset":             "html.Charset",
	"checked":             "html.Checked",
	"cite":                "html.CiteAttr",
	"class":               "html.Class",
	"cols":                "html.Cols",
	"colspan":             "html.ColSpan",
	"content":             "html.Content",
	"contenteditable":     "html.ContentEditable",
	"controls":            "html.Controls",
	"crossorigin":         "html.CrossOrigin",
	"data-":               "html.Data",
	"datetime":            "html.DateTime",
	"default":             "html.Default",
	"defer":               "html.Defer",
	"dir":                 "html.Dir",
	"disabled":            "html.Disabled",
	"download":            "html.Download",
	"draggable":           "html.Draggable",
	"enctype":             "html.EncType",
	"for":                 "html.For",
	"form":                "html.FormAttr",
	"formnovalidate":      "html.FormNoValidate",
	"height":              "html.Height",
	"hidden":              "html.Hidden",
	"href":                "html.Href",
	"id":                  "html.Id",
	"inert":               "html.Inert",
	"integrity":           "html.Integrity",
	"ismap":               "html.IsMap",
	"itemscope":           "html.ItemScope",
	"lang":                "html.Lang",
	"list":                "html.List",
	"loading":             "html.Loading",
	"loop":                "html.Loop",
	"max":                 "html.Max",
	"maxlength":           "html.MaxLength",
	"method":              "html.Method",
	"min":                 "html.Min",
	"minlength":           "html.MinLength",
	"multiple":            "html.Multiple",
	"muted":               "html.Muted",
	"name":                "html.Name",
	"nomodule":            "html.NoModule",
	"novalidate":          "html.NoValidate",
	"onabort":             "html.OnAbort",
	"onbeforeunload":      "html.OnBeforeUnload",
	"onblur":              "html.OnBlur",
	"oncanplay":           "html.OnCanPlay",
	"oncanplaythrough":    "html.OnCanPlayThrough",
	"onchange":            "html.OnChange",
	"onclick":             "html.OnClick",
	"oncontextmenu":       "html.OnContextMenu",
	"oncopy":              "html.OnCopy",
	"oncut":               "html.OnCut",
	"ondblclick":          "html.OnDblClick",
	"ondrag":              "html.OnDrag",
	"ondragend":           "html.OnDragEnd",
	"ondragenter":         "html.OnDragEnter",
	"ondragleave":         "html.OnDragLeave",
	"ondragover":          "html.OnDragOver",
	"ondragstart":         "html.OnDragStart",
	"ondrop":              "html.OnDrop",
	"ondurationchange":    "html.OnDurationChange",
	"onended":             "html.OnEnded",
	"onerror":             "html.OnError",
	"onfocus":             "html.OnFocus",
	"onhashchange":        "html.OnHashChange",
	"oninput":             "html.OnInput",
	"oninvalid":           "html.OnInvalid",
	"onkeydown":           "html.OnKeyDown",
	"onkeypress":          "html.OnKeyPress",
	"onkeyup":             "html.OnKeyUp",
	"onload":              "html.OnLoad",
	"onloadeddata":        "html.OnLoadedData",
	"onloadedmetadata":    "html.OnLoadedMetadata",
	"onmousedown":         "html.OnMouseDown",
	"onmouseenter":        "html.OnMouseEnter",
	"onmouseleave":        "html.OnMouseLeave",
	"onmousemove":         "html.OnMouseMove",
	"onmouseout":          "html.OnMouseOut",
	"onmouseover":         "html.OnMouseOver",
	"onmouseup":           "html.OnMouseUp",
	"onpagehide":          "html.OnPageHide",
	"onpageshow":          "html.OnPageShow",
	"onpaste":             "html.OnPaste",
	"onpause":             "html.OnPause",
	"onplay":              "html.OnPlay",
	"onplaying":           "html.OnPlaying",
	"onpopstate":          "html.OnPopState",
	"onprogress":          "html.OnProgress",
	"onratechange":        "html.OnRateChange",
	"onreset":             "html.OnReset",
	"onresize":            "html.OnResize",
	"onscroll":            "html.OnScroll",
	"onseeked":            "html.OnSeeked",
	"onseeking":           "html.OnSeeking",
	"onselect":            "html.OnSelect",
	"onstalled":           "html.OnStalled",
	"onsubmit":            "html.OnSubmit",
	"onsuspend":           "html.OnSuspend",
	"ontimeupdate":        "html.OnTimeUpdate",
	"ontoggle":            "html.OnToggle",
	"onunload":            "html.OnUnload",
	"onvolumechange":      "html.OnVolumeChange",
	"onwaiting":           "html.OnWaiting",
	"open":                "html.Open",
	"pattern":             "html.Pattern",
	"placeholder":         "html.Placeholder",
	"playsinline":         "html.PlaysInline",
	"popover":             "html.PopOver",
	"popovertarget":       "html.PopOverTarget",
	"popovertargetaction": "html.PopOverTargetAction",
	"poster":              "html.Poster",
	"preload":             "html.Preload",
	"readonly":            "html.ReadOnly",
	"referrerpolicy":      "html.ReferrerPolicy",
	"rel":                 "html.Rel",
	"required":            "html.Required",
	"reversed":            "html.Reversed",
	"role":                "html.Role",
	"rows":                "html.Rows",
	"rowspan":             "html.RowSpan",
	"selected":            "html.Selected",
	"slot":                "html.SlotAttr",
	"spellcheck":          "html.Spellcheck",
	"src":                 "html.Src",
	"srcset":              "html.SrcSet",
	"step":                "html.Step",
	"style":               "html.Style",
	"tabindex":            "html.TabIndex",
	"target":              "html.Target",
	"title":               "html.Title",
	"translate":           "html.Translate",
	"type":                "html.Type",
	"value":               "html.Value",
	"width":               "html.Width",
}

var genHtmlBool = map[string]bool{
	"allowfullscreen": true,
	"async":           true,
	"autofocus":       true,
	"autoplay":        true,
	"checked":         true,
	"controls":        true,
	"default":         true,
	"defer":           true,
	"disabled":        true,
	"formnovalidate":  true,
	"hidden":          true,
	"inert":           true,
	"ismap":           true,
	"itemscope":       true,
	"loop":            true,
	"multiple":        true,
	"muted":           true,
	"nomodule":        true,
	"novalidate":      true,
	"open":            true,
	"playsinline":     true,
	"readonly":        true,
	"required":        true,
	"reversed":        true,
	"selected":        true,
	"spellcheck":      true,
	"translate":       true,
}

var genSvgElems = map[string]string{
	"altGlyph":            "svg.AltGlyph",
	"animate":             "svg.Animate",
	"animateMotion":       "svg.AnimateMotion",
	"animateTransform":    "svg.AnimateTransform",
	"circle":              "svg.Circle",
	"clipPath":            "svg.ClipPath",
	"defs":                "svg.Defs",
	"desc":                "svg.Desc",
	"discard":             "svg.Discard",
	"ellipse":             "svg.Ellipse",
	"feBlend":             "svg.FeBlend",
	"feColorMatrix":       "svg.FeColorMatrix",
	"feComponentTransfer": "svg.FeComponentTransfer",
	"feComposite":         "svg.FeComposite",
	"feConvolveMatrix":    "svg.FeConvolveMatrix",
	"feDiffuseLighting":   "svg.FeDiffuseLighting",
	"feDisplacementMap":   "svg.FeDisplacementMap",
	"feDistantLight":      "svg.FeDistantLight",
	"feDropShadow":        "svg.FeDropShadow",
	"feFlood":             "svg.FeFlood",
	"feFuncA":             "svg.FeFuncA",
	"feFuncB":             "svg.FeFuncB",
	"feFuncG":             "svg.FeFuncG",
	"feFuncR":             "svg.FeFuncR",
	"feGaussianBlur":      "svg.FeGaussianBlur",
	"feImage":             "svg.FeImage",
	"feMerge":             "svg.FeMerge",
	"feMergeNode":         "svg.FeMergeNode",
	"feMorphology":        "svg.FeMorphology",
	"feOffset":            "svg.FeOffset",
	"fePointLight":        "svg.FePointLight",
	"feSpecularLighting":  "svg.FeSpecularLighting",
	"feSpotLight":         "svg.FeSpotLight",
	"feTile":              "svg.FeTile",
	"feTurbulence":        "svg.FeTurbulence",
	"filter":              "svg.Filter",
	"foreignObject":       "svg.ForeignObject",
	"g":                   "svg.G",
	"glyph":               "svg.Glyph",
	"line":                "svg.Line",
	"linearGradient":      "svg.LinearGradient",
	"marker":              "svg.Marker",
	"mask":                "svg.Mask",
	"metadata":            "svg.Metadata",
	"mpath":               "svg.Mpath",
	"path":                "svg.Path",
	"pattern":             "svg.Pattern",
	"polygon":             "svg.Polygon",
	"polyline":            "svg.Polyline",
	"radialGradient":      "svg.RadialGradient",
	"rect":                "svg.Rect",
	"script":              "svg.Script",
	"set":                 "svg.Set",
	"solidcolor":          "svg.SolidColor",
	"stop":                "svg.Stop",
	"style":               "svg.StyleElement",
	"svg":                 "svg.Svg",
	"symbol":              "svg.Symbol",
	"text":                "svg.TextElement",
	"textPath":            "svg.TextPath",
	"title":               "svg.Title",
	"tref":                "svg.TRef",
	"tspan":               "svg.TSpan",
	"use":                 "svg.Use",
}

var genSvgAttrs = map[string]string{
	"accumulate":                   "svg.Accumulate",
	"additive":                     "svg.Additive",
	"alignment-baseline":           "svg.AlignmentBaseline",
	"attributeName":                "svg.AttributeName",
	"attributeType":                "svg.AttributeType",
	"baseline-shift":               "svg.BaselineShift",
	"begin":                        "svg.Begin",
	"by":                           "svg.By",
	"calcMode":                     "svg.CalcMode",
	"class":                        "svg.Class",
	"clip":                         "svg.Clip",
	"clip-path":                    "svg.ClipPathAttr",
	"clip-rule":                    "svg.ClipRule",
	"color":                        "svg.Color",
	"color-interpolation":          "svg.ColorInterpolation",
	"color-interpolation-filters":  "svg.ColorInterpolationFilters",
	"color-profile":                "svg.ColorProfile",
	"color-rendering":              "svg.ColorRendering",
	"cursor":                       "svg.Cursor",
	"cx":                           "svg.Cx",
	"cy":                           "svg.Cy",
	"d":                            "svg.D",
	"direction":                    "svg.Direction",
	"display":                      "svg.Display",
	"dominant-baseline":            "svg.DominantBaseline",
	"dur":                          "svg.Dur",
	"dx":                           "svg.Dx",
	"dy":                           "svg.Dy",
	"enable-background":            "svg.EnableBackground",
	"end":                          "svg.End",
	"externalResourcesRequired":    "svg.ExternalResourcesRequired",
	"fill":                         "svg.Fill",
	"fill-opacity":                 "svg.FillOpacity",
	"fill-rule":                    "svg.FillRule",
	"filter":                       "svg.FilterAttr",
	"filterUnits":                  "svg.FilterUnits",
	"flood-color":                  "svg.FloodColor",
	"flood-opacity":                "svg.FloodOpacity",
	"font-family":                  "svg.FontFamily",
	"font-size":                    "svg.FontSize",
	"font-size-adjust":             "svg.FontSizeAdjust",
	"font-stretch":                 "svg.FontStretch",
	"font-style":                   "svg.FontStyle",
	"font-variant":                 "svg.FontVariant",
	"font-weight":                  "svg.FontWeight",
	"from":                         "svg.From",
	"fx":                           "svg.Fx",
	"fy":                           "svg.Fy",
	"glyph-orientation-horizontal": "svg.GlyphOrientationHorizontal",
	"glyph-orientation-vertical":   "svg.GlyphOrientationVertical",
	"gradientTransform":            "svg.GradientTransform",
	"gradientUnits":                "svg.GradientUnits",
	"height":                       "svg.Height",
	"href":                         "svg.Href",
	"id":                           "svg.Id",
	"image-rendering":              "svg.ImageRendering",
	"kerning":                      "svg.Kerning",
	"keyPoints":                    "svg.KeyPoints",
	"keySplines":                   "svg.KeySplines",
	"keyTimes":                     "svg.KeyTimes",
	"lengthAdjust":                 "svg.LengthAdjust",
	"letter-spacing":               "svg.LetterSpacing",
	"lighting-color":               "svg.LightingColor",
	"marker-end":                   "svg.MarkerEnd",
	"marker-mid":                   "svg.MarkerMid",
	"marker-start":                 "svg.MarkerStart",
	"markerHeight":                 "svg.MarkerHeight",
	"markerUnits":                  "svg.MarkerUnits",
	"markerWidth":                  "svg.MarkerWidth",
	"mask":                         "svg.MaskAttr",
	"onblur":                       "svg.OnBlur",
	"onclick":                      "svg.OnClick",
	"onfocus":                      "svg.OnFocus",
	"onload":                       "svg.OnLoad",
	"onmousedown":                  "svg.OnMouseDown",
	"onmousemove":                  "svg.OnMouseMove",
	"onmouseout":                   "svg.OnMouseOut",
	"onmouseover":                  "svg.OnMouseOver",
	"onmouseup":                    "svg.OnMouseUp",
	"onunload":                     "svg.OnUnload",
	"opacity":                      "svg.Opacity",
	"orient":                       "svg.Orient",
	"path":                         "svg.PathAttr",
	"pathLength":                   "svg.PathLength",
	"patternContentUnits":          "svg.PatternContentUnits",
	"patternTransform":             "svg.PatternTransform",
	"patternUnits":                 "svg.PatternUnits",
	"pointer-events":               "svg.PointerEvents",
	"points":                       "svg.Points",
	"preserveAspectRatio":          "svg.PreserveAspectRatio",
	"primitiveUnits":               "svg.PrimitiveUnits",
	"r":                            "svg.R",
	"refX":                         "svg.RefX",
	"refY":                         "svg.RefY",
	"repeatCount":                  "svg.RepeatCount",
	"repeatDur":                    "svg.RepeatDur",
	"requiredExtensions":           "svg.RequiredExtensions",
	"requiredFeatures":             "svg.RequiredFeatures",
	"rotate":                       "svg.Rotate",
	"rx":                           "svg.Rx",
	"ry":                           "svg.Ry",
	"shape-rendering":              "svg.ShapeRendering",
	"spreadMethod":                 "svg.SpreadMethod",
	"stop-color":                   "svg.StopColor",
	"stop-opacity":                 "svg.StopOpacity",
	"stroke":                       "svg.Stroke",
	"stroke-dasharray":             "svg.StrokeDashArray",
	"stroke-dashoffset":            "svg.StrokeDashOffset",
	"stroke-linecap":               "svg.StrokeLineCap",
	"stroke-linejoin":              "svg.StrokeLineJoin",
	"stroke-miterlimit":            "svg.StrokeMiterLimit",
	"stroke-opacity":               "svg.StrokeOpacity",
	"stroke-width":                 "svg.StrokeWidth",
	"style":                        "svg.Style",
	"systemLanguage":               "svg.SystemLanguage",
	"tabindex":                     "svg.TabIndex",
	"text-anchor":                  "svg.TextAnchor",
	"text-decoration":              "svg.TextDecoration",
	"text-rendering":               "svg.TextRendering",
	"textLength":                   "svg.TextLength",
	"to":                           "svg.To",
	"type":                         "svg.Type",
	"unicode-bidi":                 "svg.UnicodeBidi",
	"values":                       "svg.Values",
	"visibility":                   "svg.Visibility",
	"width":                        "svg.Width",
	"word-spacing":                 "svg.WordSpacing",
	"writing-mode":                 "svg.WritingMode",
	"x":                            "svg.X",
	"x1":                           "svg.X1",
	"x2":                           "svg.X2",
	"xlink:actuate":                "svg.XlinkActuate",
	"xlink:arcrole":                "svg.XlinkArcrole",
	"xlink:href":                   "svg.XlinkHref",
	"xlink:role":                   "svg.XlinkRole",
	"xlink:show":                   "svg.XlinkShow",
	"xlink:title":                  "svg.XlinkTitle",
	"xml:base":                     "svg.XmlBase",
	"xml:lang":                     "svg.XmlLang",
	"xml:space":                    "svg.XmlSpace",
	"y":                            "svg.Y",
	"y1":                           "svg.Y1",
	"y2":                           "svg.Y2",
}
