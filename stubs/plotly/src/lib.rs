//! Stand-in for the plotly crate: keeps what a figure was given and prints it as JSON.
//!
//! Only what the crate under check uses (and what is close to it) is here. Names and shapes
//! of the JSON follow plotly's figure format: data is a list of traces, numbers that are not
//! finite are null.
use serde_json::{json, Map, Value};
use std::marker::PhantomData;

pub mod private {
    use super::*;
    /// Things that can be elements of a trace's data.
    pub trait Element {
        fn value(&self) -> Value;
    }
    impl Element for f64 {
        fn value(&self) -> Value {
            json!(self)
        }
    }
    impl Element for i64 {
        fn value(&self) -> Value {
            json!(self)
        }
    }
    impl Element for usize {
        fn value(&self) -> Value {
            json!(self)
        }
    }
    impl Element for String {
        fn value(&self) -> Value {
            json!(self)
        }
    }
    impl<'a> Element for &'a str {
        fn value(&self) -> Value {
            json!(self)
        }
    }
    impl<T: Element> Element for Vec<T> {
        fn value(&self) -> Value {
            Value::Array(self.iter().map(|x| x.value()).collect())
        }
    }
}
use private::Element;

fn list<T: Element>(v: &[T]) -> Value {
    Value::Array(v.iter().map(|x| x.value()).collect())
}

pub trait Trace {
    fn value(&self) -> Value;
    fn to_json(&self) -> String {
        self.value().to_string()
    }
    fn box_clone(&self) -> Box<dyn Trace>;
}

impl Clone for Box<dyn Trace> {
    fn clone(&self) -> Self {
        self.box_clone()
    }
}

/// A value that becomes a member of an object.
pub trait Field {
    fn field(self) -> Value;
}
macro_rules! fields {
    ($($t:ty),*) => { $(impl Field for $t { fn field(self) -> Value { json!(self) } })* };
}
fields!(bool, f64, usize, i32, u32, i64, String, &str, Value);
impl<T: Field> Field for Vec<T> {
    fn field(self) -> Value {
        Value::Array(self.into_iter().map(Field::field).collect())
    }
}
impl<T: Field> Field for Option<T> {
    fn field(self) -> Value {
        self.map_or(Value::Null, Field::field)
    }
}

macro_rules! object {
    ($name:ident : $($key:literal $method:ident),* $(,)?) => {
        #[derive(Clone, Debug, Default)]
        pub struct $name(Map<String, Value>);
        impl $name {
            pub fn new() -> Self {
                Self::default()
            }
            $(pub fn $method(mut self, x: impl Field) -> Self {
                self.0.insert($key.into(), x.field());
                self
            })*
        }
        impl Field for $name {
            fn field(self) -> Value {
                Value::Object(self.0)
            }
        }
    };
}

macro_rules! trace {
    ($name:ident < $($g:ident),* > : $($key:literal $method:ident),* $(,)?) => {
        impl<$($g: Element + Clone + 'static),*> Trace for $name<$($g),*> {
            fn value(&self) -> Value {
                Value::Object(self.map.clone())
            }
            fn box_clone(&self) -> Box<dyn Trace> {
                Box::new(self.clone())
            }
        }
        impl<$($g: Element + Clone + 'static),*> $name<$($g),*> {
            $(pub fn $method(mut self: Box<Self>, x: impl Field) -> Box<Self> {
                self.map.insert($key.into(), x.field());
                self
            })*
        }
    };
}

pub mod color {
    use super::*;
    #[derive(Clone, Copy, Debug)]
    pub enum NamedColor {
        Black,
        White,
        Red,
        Green,
        Blue,
        Grey,
        Gray,
        Orange,
        Yellow,
        Purple,
        Brown,
        Pink,
        Cyan,
        Magenta,
        DarkBlue,
        DarkRed,
        DarkGreen,
        DarkGrey,
        LightGrey,
        LightBlue,
        Transparent,
    }
    impl Field for NamedColor {
        fn field(self) -> Value {
            json!(format!("{:?}", self).to_lowercase())
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Rgb(u8, u8, u8);
    impl Rgb {
        pub fn new(r: u8, g: u8, b: u8) -> Self {
            Rgb(r, g, b)
        }
    }
    impl Field for Rgb {
        fn field(self) -> Value {
            json!(format!("rgb({}, {}, {})", self.0, self.1, self.2))
        }
    }
}
pub use color::{NamedColor, Rgb};

macro_rules! choice {
    ($name:ident : $($v:ident $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, Debug)]
        pub enum $name { $($v),* }
        impl Field for $name {
            fn field(self) -> Value {
                json!(match self { $($name::$v => $s),* })
            }
        }
    };
}
pub mod common {
    use super::*;
    choice!(Mode: Lines "lines", Markers "markers", LinesMarkers "lines+markers", Text "text", None "none");
    choice!(Fill: ToSelf "toself", None "none", ToZeroY "tozeroy", ToZeroX "tozerox", ToNextX "tonextx", ToNextY "tonexty", ToNext "tonext");
    choice!(MarkerSymbol: Circle "circle", Cross "cross", Square "square", Diamond "diamond", X "x");
    object!(Line: "color" color, "width" width, "dash" dash);
    object!(ColorBar: "title" title, "len" len, "thickness" thickness, "x" x, "y" y);
    object!(Title: "text" text, "font" font, "x" x, "y" y, "side" side);
    object!(Font: "size" size, "family" family, "color" color);
    impl Title {
        pub fn with_text(text: &str) -> Self {
            Title::new().text(text)
        }
    }
    impl From<&str> for Title {
        fn from(text: &str) -> Self {
            Title::new().text(text)
        }
    }
    choice!(DashType: Solid "solid", Dot "dot", Dash "dash", DashDot "dashdot", LongDash "longdash");
    choice!(Visible: True "true", False "false", LegendOnly "legendonly");
    choice!(HoverInfo: All "all", None "none", Skip "skip", X "x", Y "y", Name "name", Text "text");
    object!(Marker: "symbol" symbol, "cmin" cmin, "cmax" cmax, "cmid" cmid, "cauto" cauto,
            "colorbar" color_bar, "colorscale" color_scale, "showscale" show_scale, "size" size,
            "color" color, "line" line, "opacity" opacity, "autocolorscale" auto_color_scale,
            "reversescale" reverse_scale);
    #[derive(Clone, Debug)]
    pub struct ColorScaleElement(pub f64, pub String);
    #[derive(Clone, Debug)]
    pub enum ColorScale {
        Palette(String),
        Vector(Vec<ColorScaleElement>),
    }
    impl Field for ColorScale {
        fn field(self) -> Value {
            match self {
                ColorScale::Palette(x) => json!(x),
                ColorScale::Vector(v) => json!(v.iter().map(|e| json!([e.0, e.1])).collect::<Vec<_>>()),
            }
        }
    }
}

pub mod contour {
    use super::*;
    choice!(Coloring: Fill "fill", HeatMap "heatmap", Lines "lines", None "none");
    object!(Contours: "start" start, "end" end, "size" size, "showlines" show_lines,
            "value" value, "operation" operation, "showlabels" show_labels, "coloring" coloring, "type" type_);
}

#[derive(Clone, Debug)]
pub struct Scatter<X, Y> {
    map: Map<String, Value>,
    p: PhantomData<(X, Y)>,
}
trace!(Scatter<X, Y>: "mode" mode, "showlegend" show_legend, "fill" fill, "fillcolor" fill_color,
       "line" line, "marker" marker, "name" name, "opacity" opacity, "visible" visible, "text" text, "hoverinfo" hover_info, "hovertext" hover_text, "legendgroup" legend_group, "customdata" custom_data, "ids" ids, "xaxis" x_axis, "yaxis" y_axis, "connectgaps" connect_gaps);
impl<X: Element, Y: Element> Scatter<X, Y> {
    pub fn new(x: Vec<X>, y: Vec<Y>) -> Box<Self> {
        let mut map = Map::new();
        map.insert("type".into(), json!("scatter"));
        map.insert("x".into(), list(&x));
        map.insert("y".into(), list(&y));
        Box::new(Scatter { map, p: PhantomData })
    }
}

#[derive(Clone, Debug)]
pub struct HeatMap<X, Y, Z> {
    map: Map<String, Value>,
    p: PhantomData<(X, Y, Z)>,
}
trace!(HeatMap<X, Y, Z>: "colorscale" color_scale, "showlegend" show_legend, "showscale" show_scale,
       "zmin" zmin, "zmax" zmax, "zmid" zmid, "zauto" zauto, "transpose" transpose, "name" name, "opacity" opacity,
       "colorbar" color_bar, "reversescale" reverse_scale, "connectgaps" connect_gaps, "visible" visible, "text" text, "autocolorscale" auto_color_scale, "zsmooth" zsmooth, "hoverinfo" hover_info, "hovertext" hover_text, "legendgroup" legend_group, "customdata" custom_data, "ids" ids, "xaxis" x_axis, "yaxis" y_axis);
impl<X: Element, Y: Element, Z: Element> HeatMap<X, Y, Z> {
    pub fn new(x: Vec<X>, y: Vec<Y>, z: Vec<Z>) -> Box<Self> {
        let mut map = Map::new();
        map.insert("type".into(), json!("heatmap"));
        map.insert("x".into(), list(&x));
        map.insert("y".into(), list(&y));
        map.insert("z".into(), list(&z));
        Box::new(HeatMap { map, p: PhantomData })
    }
}

#[derive(Clone, Debug)]
pub struct Contour<Z, X = f64, Y = f64> {
    map: Map<String, Value>,
    p: PhantomData<(X, Y, Z)>,
}
trace!(Contour<Z, X, Y>: "colorscale" color_scale, "contours" contours, "autocontour" auto_contour,
       "ncontours" n_contours, "showlegend" show_legend, "showscale" show_scale, "line" line, "name" name,
       "zmin" zmin, "zmax" zmax, "zauto" zauto, "transpose" transpose, "opacity" opacity, "colorbar" color_bar,
       "reversescale" reverse_scale, "connectgaps" connect_gaps, "visible" visible, "text" text, "autocolorscale" auto_color_scale, "zmid" zmid, "hoverinfo" hover_info, "hovertext" hover_text, "legendgroup" legend_group, "customdata" custom_data, "ids" ids, "xaxis" x_axis, "yaxis" y_axis);
impl<Z: Element, X: Element, Y: Element> Contour<Z, X, Y> {
    pub fn new(x: Vec<X>, y: Vec<Y>, z: Vec<Z>) -> Box<Self> {
        let mut map = Map::new();
        map.insert("type".into(), json!("contour"));
        map.insert("x".into(), list(&x));
        map.insert("y".into(), list(&y));
        map.insert("z".into(), list(&z));
        Box::new(Contour { map, p: PhantomData })
    }
}

pub mod traces {
    pub mod heat_map {
        pub use crate::HeatMap;
    }
    pub mod scatter {
        pub use crate::Scatter;
    }
    pub mod contour {
        pub use crate::contour::{Coloring, Contours};
        pub use crate::Contour;
    }
}

pub mod layout {
    use super::*;
    object!(Axis: "title" title, "range" range, "visible" visible, "showgrid" show_grid,
            "showline" show_line, "zeroline" zero_line, "type" type_, "ticks" ticks, "tickvals" tick_values, "nticks" n_ticks, "mirror" mirror, "constrain" constrain, "fixedrange" fixed_range, "autorange" auto_range, "linecolor" line_color, "linewidth" line_width, "gridcolor" grid_color, "scaleanchor" scale_anchor, "scaleratio" scale_ratio);
    object!(Template: "layout" layout);
    impl Field for &Template {
        fn field(self) -> Value {
            self.clone().field()
        }
    }
    object!(Layout: "template" template, "title" title, "xaxis" x_axis, "yaxis" y_axis, "width" width,
            "height" height, "showlegend" show_legend, "autosize" auto_size, "font" font, "margin" margin, "legend" legend, "plot_bgcolor" plot_background_color, "paper_bgcolor" paper_background_color, "hovermode" hover_mode, "bargap" bar_gap);
    object!(Margin: "l" left, "r" right, "t" top, "b" bottom, "pad" pad);
    object!(Legend: "x" x, "y" y, "title" title);
    pub mod themes {
        use super::Template;
        use std::sync::LazyLock;
        macro_rules! themes {
            ($($n:ident $s:literal),*) => { $(pub static $n: LazyLock<Template> = LazyLock::new(|| Template::new().layout($s));)* };
        }
        themes!(PLOTLY_WHITE "plotly_white", PLOTLY_DARK "plotly_dark", SIMPLE_WHITE "simple_white", SEABORN "seaborn");
    }
}
pub use layout::Layout;

#[derive(Clone, Default)]
pub struct Plot {
    traces: Vec<Box<dyn Trace>>,
    layout: Layout,
}
impl Plot {
    pub fn new() -> Plot {
        Plot::default()
    }
    pub fn use_local_plotly(&mut self) {}
    pub fn add_trace(&mut self, trace: Box<dyn Trace>) {
        self.traces.push(trace)
    }
    pub fn add_traces(&mut self, traces: Vec<Box<dyn Trace>>) {
        self.traces.extend(traces)
    }
    pub fn set_layout(&mut self, layout: Layout) {
        self.layout = layout
    }
    pub fn data(&self) -> &[Box<dyn Trace>] {
        &self.traces
    }
    pub fn layout(&self) -> &Layout {
        &self.layout
    }
    pub fn write_html<P: AsRef<std::path::Path>>(&self, _: P) {}
    pub fn to_html(&self) -> String {
        self.to_json()
    }
    pub fn show_html<P: AsRef<std::path::Path>>(&self, _: P) {
        self.show()
    }
    pub fn to_json(&self) -> String {
        json!({"data": self.traces.iter().map(|t| t.value()).collect::<Vec<_>>(),
               "layout": self.layout.clone().field()})
        .to_string()
    }
    /// Where a browser would be opened, the figure is appended to the file named by UP4_PLOTS.
    pub fn show(&self) {
        use std::io::Write;
        if let Some(path) = std::env::var_os("UP4_PLOTS") {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
            writeln!(f, "{}", self.to_json()).unwrap();
        }
    }
}
