// written by tools/gen_models.py
#[derive(Model)]
#[allow(dead_code)]
pub struct S0<'d> {
    #[parameter(frozen, skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[cfg(all())]
    long_field_name_number_twelve: Vec<Parameter<'d>>,
}
impl<'d> Gen<'d> for S0<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S0 {
            marker: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S1<'d> {
    #[serde(skip)]
    parameters: S0<'d>,
    #[serde(skip)]
    pub(crate) self_: Vec<S0<'d>>,
    #[parameter(skip, frozen)]
    pub marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S1<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S1 {
            parameters: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S2<'d> {
    r#move: Vec<Vec<Parameter<'d>>>,
    #[serde(skip)]
    pub w: Vec<Vec<S0<'d>>>,
    #[allow(unused, dead_code)]
    #[parameter(frozen, skip)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S2<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S2 {
            r#move: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S3<'d> {
    #[parameter(frozen, skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[doc = "parameter(skip)"]
    #[cfg(all())]
    #[parameter(skip, frozen)]
    pub parameters: f32,
    #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) field_updater: S1<'d>,
    #[doc(hidden)]
    #[serde(skip_serializing)]
    pub self_: S1<'d>,
}
impl<'d> Gen<'d> for S3<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S3 {
            marker: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.parameters, true, f);
        Gen::visit(&self.field_updater, true, f);
        Gen::visit(&self.self_, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S4<'d> {
    #[allow(unused, dead_code)]
    #[cfg(all())]
    _hidden: S2<'d>,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    pub layers: Parameter<'d>,
}
impl<'d> Gen<'d> for S4<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S4 {
            _hidden: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.layers, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S5<'d> {
    #[doc = "parameter(skip)"]
    pub(crate) a: S0<'d>,
    #[allow(unused, dead_code)]
    #[cfg(all())]
    pub(crate) r#type: Vec<Vec<Parameter<'d>>>,
    pub _hidden: Vec<Parameter<'d>>,
    #[allow(dead_code)]
    #[cfg(all())]
    #[parameter(skip, frozen)]
    pub(crate) marker: PhantomData<&'d ()>,
    pub layers: S4<'d>,
    skip: Parameter<'d>,
}
impl<'d> Gen<'d> for S5<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S5 {
            a: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.skip, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S6<'d> {
    pub skip: Box<S4<'d>>,
    pub k: Vec<Parameter<'d>>,
    #[allow(dead_code)]
    /// documented
    pub stats: Parameter<'d>,
    /// documented
    pub(crate) x1: Box<Parameter<'d>>,
    #[parameter(frozen, skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    b: Vec<Vec<Parameter<'d>>>,
    /// #[parameter(skip)]
    self_: Box<S2<'d>>,
}
impl<'d> Gen<'d> for S6<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S6 {
            skip: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.self_, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S7<'d> {
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[allow(dead_code)]
    pub(crate) r#type: Parameter<'d>,
    #[doc = "parameter(skip)"]
    #[allow(dead_code)]
    pub(crate) self_: Parameter<'d>,
}
impl<'d> Gen<'d> for S7<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S7 {
            marker: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.self_, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S8<'d, M: Model<'d>> {
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    pub g_m: M,
    #[allow(dead_code)]
    a: Vec<Vec<Parameter<'d>>>,
    #[parameter(frozen, skip)]
    parameters: S5<'d>,
    #[doc = "parameter(skip)"]
    #[allow(dead_code)]
    pub(crate) w: Vec<S7<'d>>,
}
impl<'d, M: Model<'d>> Gen<'d> for S8<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S8 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.parameters, true, f);
        Gen::visit(&self.w, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S9<'d, const N: usize> {
    pub parameters: Vec<Parameter<'d>>,
    r#type: Vec<Parameter<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    pub r#move: S1<'d>,
    /// documented
    pub _hidden: Vec<S8<'d, S3<'d>>>,
    #[doc = "parameter(skip)"]
    /// documented
    a: S8<'d, S3<'d>>,
    #[cfg(all())]
    pub bias: S3<'d>,
    pub b: Vec<S2<'d>>,
    pub field_updater: Parameter<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) device: Parameter<'d>,
    pub(crate) skip: Vec<Parameter<'d>>,
    #[parameter(skip)]
    arr: [u32; N],
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    x1: Vec<Vec<Parameter<'d>>>,
    #[doc(hidden)]
    #[parameter(skip)]
    #[allow(dead_code)]
    layers: S8<'d, S3<'d>>,
}
impl<'d, const N: usize> Gen<'d> for S9<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S9 {
            parameters: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.layers, true, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S10<'d> {
    #[doc(hidden)]
    pub stats: Parameter<'d>,
    #[doc = "parameter(skip)"]
    #[serde(skip_serializing)]
    pub(crate) device: Alias<'d>,
    #[allow(dead_code)]
    #[cfg_attr(all(), serde(skip))]
    parameters: Parameter<'d>,
    #[serde(skip_serializing)]
    #[parameter(skip, frozen)]
    marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S10<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S10 {
            stats: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S11<'d, M: Model<'d>> {
    #[serde(skip)]
    pub g_m: M,
    #[cfg_attr(all(), serde(skip))]
    pub(crate) r#type: Box<S6<'d>>,
    #[parameter(skip)]
    #[cfg(all())]
    #[serde(rename = "skip")]
    marker: PhantomData<&'d ()>,
    pub(crate) device: Parameter<'d>,
    #[cfg(all())]
    #[allow(dead_code)]
    r#move: Vec<Parameter<'d>>,
}
impl<'d, M: Model<'d>> Gen<'d> for S11<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S11 {
            g_m: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S12<'d, const N: usize = 3> {
    #[serde(skip)]
    pub(crate) r#type: Box<Parameter<'d>>,
    #[cfg_attr(all(), serde(skip))]
    pub(crate) z9: Vec<Vec<S3<'d>>>,
    #[serde(skip)]
    pub field_updater: Vec<Parameter<'d>>,
    #[cfg_attr(all(), serde(skip))]
    #[parameter()] #[parameter(skip)]
    arr: [u32; N],
    #[parameter(frozen, skip)]
    pub marker: PhantomData<&'d ()>,
}
impl<'d, const N: usize> Gen<'d> for S12<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S12 {
            r#type: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S13<'d> {
    value: Vec<Parameter<'d>>,
    model: pu::Parameter<'d>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    inner: pu::Parameter<'d>,
}
impl<'d> Gen<'d> for S13<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S13 {
            value: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.inner, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S14<'d, 's: 'd> {
    #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    pub marker: PhantomData<&'d ()>,
    #[parameter(skip, frozen)]
    #[allow(unused, dead_code)]
    pub name: &'s str,
}
impl<'d, 's: 'd> Gen<'d> for S14<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S14 {
            marker: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.name, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S15<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    /// documented
    pub(crate) skip: Parameter<'d>,
    #[serde(skip)]
    #[allow(unused, dead_code)]
    pub(crate) parameters: M,
    /// #[parameter(skip)]
    x1: Parameter<'d>,
    #[doc = "parameter(skip)"]
    #[serde(skip)]
    /// documented
    r#move: Vec<Vec<S1<'d>>>,
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[serde(skip_serializing)]
    k: S11<'d, Vec<Parameter<'d>>>,
    #[serde(skip_serializing)]
    device: Vec<S9<'d, 0>>,
}
impl<'d, M: Model<'d>> Gen<'d> for S15<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S15 {
            skip: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.device, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S16<'d, const N: usize> {
    pub(crate) k: Vec<Parameter<'d>>,
    #[serde(skip_serializing)]
    pub(crate) value: Box<Parameter<'d>>,
    #[parameter(skip)]
    #[serde(skip_serializing)]
    pub(crate) arr: [u32; N],
    pub parameters: Vec<Parameter<'d>>,
    #[parameter(skip)]
    /// #[parameter(skip)]
    #[serde(skip_serializing, rename = "parameter")]
    pub(crate) marker: PhantomData<&'d ()>,
    #[parameter(skip)]
    pub x1: Vec<Parameter<'d>>,
    #[serde(skip)]
    #[parameter(skip)]
    pub(crate) z9: Vec<S7<'d>>,
    inner: Parameter<'d>,
}
impl<'d, const N: usize> Gen<'d> for S16<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S16 {
            k: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.x1, true, f);
        Gen::visit(&self.z9, true, f);
        Gen::visit(&self.inner, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S17<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    #[parameter(skip)]
    #[doc(hidden)]
    pub marker: PhantomData<&'d ()>,
    pub(crate) g_m: M,
    pub(crate) _hidden: Vec<Parameter<'d>>,
}
impl<'d, M: Model<'d>> Gen<'d> for S17<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S17 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S18<'d> {
    #[parameter(frozen, skip)]
    pub(crate) r#type: Option<Parameter<'d>>,
    /// documented
    stats: Vec<Vec<Parameter<'d>>>,
    /// #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    pub bias: Parameter<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(skip,)]
    #[allow(unused, dead_code)]
    pub marker: PhantomData<&'d ()>,
    #[parameter(frozen, skip)]
    r#move: Parameter<'d>,
    model: Vec<Parameter<'d>>,
    pub inner: Vec<Vec<Parameter<'d>>>,
    #[allow(unused, dead_code)]
    pub device: Parameter<'d>,
    #[allow(unused, dead_code)]
    pub layers: Vec<S5<'d>>,
    pub _hidden: Alias<'d>,
    pub x1: Box<Parameter<'d>>,
    pub params: Vec<Parameter<'d>>,
    pub(crate) skip: Alias<'d>,
}
impl<'d> Gen<'d> for S18<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S18 {
            r#type: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#type, true, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.r#move, true, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.skip, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S19<'d, 's> {
    #[cfg(all())]
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[serde(skip_serializing)]
    #[parameter(skip, frozen)]
    pub(crate) name: &'s str,
}
impl<'d, 's> Gen<'d> for S19<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S19 {
            marker: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.name, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S20<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[allow(unused, dead_code)]
    #[allow(dead_code)]
    pub r#move: pu::Parameter<'d>,
    pub(crate) g_m: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S20<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S20 {
            marker: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.g_m, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S21<'d, const N: usize> {
    params: Vec<Vec<Parameter<'d>>>,
    #[parameter(skip)]
    #[serde(skip_serializing, rename = "parameter")]
    pub(crate) marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    /// documented
    _hidden: Box<S7<'d>>,
    #[serde(skip)]
    #[parameter(frozen, skip)]
    pub arr: [u32; N],
    #[serde(rename = "skip")]
    pub(crate) self_: Vec<Vec<Parameter<'d>>>,
}
impl<'d, const N: usize> Gen<'d> for S21<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S21 {
            params: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.self_, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S22<'d, const N: usize> {
    #[doc(hidden)]
    #[cfg_attr(all(), serde(skip))]
    pub k: S6<'d>,
    #[serde(skip)]
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    /// #[parameter(skip)]
    #[allow(unused, dead_code)]
    pub(crate) x1: Vec<S3<'d>>,
    #[serde(skip)]
    pub(crate) device: pu::Parameter<'d>,
    #[parameter(skip)]
    /// #[parameter(skip)]
    #[allow(unused, dead_code)]
    #[serde(skip_serializing)]
    pub arr: [u32; N],
    #[cfg_attr(all(), serde(skip))]
    pub(crate) _hidden: S16<'d, 4>,
    /// documented
    #[allow(unused, dead_code)]
    pub(crate) self_: Parameter<'d>,
}
impl<'d, const N: usize> Gen<'d> for S22<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S22 {
            k: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.self_, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S23<'d, 's> {
    /// documented
    #[serde(skip_serializing)]
    #[parameter(frozen, skip)]
    pub name: &'s str,
    #[serde(rename = "skip")]
    #[allow(unused, dead_code)]
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[serde(skip)]
    params: Vec<S5<'d>>,
}
impl<'d, 's> Gen<'d> for S23<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S23 {
            name: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.name, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.params, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S24<'d, 's> {
    #[cfg(all())]
    #[parameter()] #[parameter(skip)]
    #[allow(unused, dead_code)]
    pub name: &'s str,
    #[parameter(skip, frozen)]
    device: Parameter<'d>,
    #[parameter(skip)]
    pub parameters: u32,
    pub self_: Vec<Parameter<'d>>,
    /// #[parameter(skip)]
    field_updater: Vec<Vec<Parameter<'d>>>,
    #[parameter(skip)]
    /// documented
    marker: PhantomData<&'d ()>,
    #[parameter(skip,)]
    /// #[parameter(skip)]
    pub(crate) layers: S9<'d, 0>,
    #[doc = "parameter(skip)"]
    #[cfg_attr(all(), allow(dead_code))]
    skip: Box<S1<'d>>,
    #[parameter(skip)]
    b: u32,
    /// documented
    pub(crate) x1: Box<S5<'d>>,
    #[allow(dead_code)]
    pub long_field_name_number_twelve: Vec<S22<'d, 2>>,
    pub a: Vec<S12<'d>>,
    #[allow(dead_code)]
    pub stats: pu::Parameter<'d>,
    z9: Vec<S14<'d, 'static>>,
}
impl<'d, 's> Gen<'d> for S24<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S24 {
            name: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.name, true, f);
        Gen::visit(&self.device, true, f);
        Gen::visit(&self.parameters, true, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.layers, true, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.b, true, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.z9, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S25<'d, const N: usize, M: Model<'d>> {
    #[cfg_attr(all(), serde(skip))]
    #[cfg(all())]
    pub(crate) long_field_name_number_twelve: M,
    #[serde(skip_serializing)]
    pub(crate) b: Vec<Parameter<'d>>,
    #[doc = "parameter(skip)"]
    #[cfg_attr(all(), serde(skip))]
    pub bias: Vec<M>,
    #[parameter(skip, frozen)]
    pub(crate) skip: Parameter<'d>,
    #[serde(skip)]
    pub(crate) z9: Vec<S19<'d, 'static>>,
    #[allow(unused, dead_code)]
    #[serde(skip)]
    /// #[parameter(skip)]
    pub value: Vec<M>,
    #[allow(dead_code)]
    pub(crate) parameter: Vec<Parameter<'d>>,
    #[serde(skip)]
    #[allow(unused, dead_code)]
    #[doc(hidden)]
    pub(crate) device: M,
    #[parameter(skip)]
    w: Parameter<'d>,
    pub(crate) r#move: Vec<Vec<Parameter<'d>>>,
    a: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    parameters: Vec<S18<'d>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[serde(skip)]
    #[parameter(skip)]
    pub arr: [u32; N],
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S25<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S25 {
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.skip, true, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.w, true, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.arr, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S26<'d> {
    /// #[parameter(skip)]
    #[serde(skip_serializing)]
    #[doc(hidden)]
    pub(crate) x1: Box<S25<'d, 3, S2<'d>>>,
    #[parameter(skip)]
    #[serde(skip_serializing, rename = "parameter")]
    /// documented
    #[cfg_attr(all(), allow(dead_code))]
    marker: PhantomData<&'d ()>,
    #[allow(dead_code)]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) _hidden: S22<'d, 2>,
}
impl<'d> Gen<'d> for S26<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S26 {
            x1: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self._hidden, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S27<'d> {
    #[serde(skip)]
    pub(crate) k: Vec<Vec<S12<'d>>>,
    #[parameter()] #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[serde(skip)]
    pub(crate) b: Vec<S25<'d, 3, S2<'d>>>,
    pub(crate) long_field_name_number_twelve: Parameter<'d>,
}
impl<'d> Gen<'d> for S27<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S27 {
            k: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S28<'d, const N: usize> {
    #[cfg_attr(all(), serde(skip))]
    /// documented
    pub(crate) r#type: Box<S0<'d>>,
    #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) arr: [u32; N],
    #[serde(skip)]
    bias: S8<'d, S3<'d>>,
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), allow(dead_code))]
    #[serde(skip)]
    field_updater: Box<Parameter<'d>>,
}
impl<'d, const N: usize> Gen<'d> for S28<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S28 {
            r#type: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.field_updater, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S29<'d> {
    #[doc(hidden)]
    pub bias: Vec<S16<'d, 4>>,
    #[parameter()] #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    pub parameter: Vec<Vec<S0<'d>>>,
    stats: Parameter<'d>,
    #[allow(dead_code)]
    #[cfg(all())]
    pub params: Parameter<'d>,
    pub x1: Vec<Parameter<'d>>,
    pub _hidden: Vec<Vec<S22<'d, 2>>>,
    #[parameter(skip)]
    pub r#type: Vec<S9<'d, 0>>,
    gradient: Vec<Parameter<'d>>,
}
impl<'d> Gen<'d> for S29<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S29 {
            bias: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.r#type, true, f);
        Gen::visit(&self.gradient, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S30<'d, M: Model<'d>> {
    #[parameter(skip)]
    pub(crate) b: f32,
    #[allow(unused, dead_code)]
    r#type: Parameter<'d>,
    #[cfg(all())]
    pub value: Vec<S26<'d>>,
    w: Box<S3<'d>>,
    long_field_name_number_twelve: M,
    #[doc(hidden)]
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
}
impl<'d, M: Model<'d>> Gen<'d> for S30<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S30 {
            b: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.b, true, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S31<'d> {
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    pub r#move: Vec<Vec<Parameter<'d>>>,
}
impl<'d> Gen<'d> for S31<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S31 {
            marker: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.r#move, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S32<'d, const N: usize> {
    #[doc(hidden)]
    #[parameter(skip)]
    #[allow(unused, dead_code)]
    #[serde(skip_serializing)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[serde(skip_serializing)]
    params: Vec<S6<'d>>,
    /// #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    r#type: Vec<Parameter<'d>>,
    #[parameter(skip)]
    #[serde(skip_serializing)]
    arr: [u32; N],
}
impl<'d, const N: usize> Gen<'d> for S32<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S32 {
            marker: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.arr, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S33<'d> {
    #[cfg(all())]
    #[doc = "parameter(skip)"]
    pub parameters: pu::Parameter<'d>,
    pub(crate) parameter: Vec<Parameter<'d>>,
    pub(crate) inner: Vec<S14<'d, 'static>>,
    r#move: S26<'d>,
    #[doc = "parameter(skip)"]
    #[cfg(all())]
    #[parameter(frozen, skip)]
    pub marker: PhantomData<&'d ()>,
    #[cfg(all())]
    pub field_updater: Vec<S31<'d>>,
}
impl<'d> Gen<'d> for S33<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S33 {
            parameters: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.field_updater, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S34<'d, M> where M: Model<'d> {
    pub r#type: S3<'d>,
    pub(crate) g_m: M,
    inner: Parameter<'d>,
    #[allow(dead_code)]
    /// documented
    #[parameter()] #[parameter(skip)]
    marker: PhantomData<&'d ()>,
}
impl<'d, M> Gen<'d> for S34<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S34 {
            r#type: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S35<'d, const N: usize> {
    #[serde(skip_serializing)]
    #[allow(unused, dead_code)]
    pub(crate) field_updater: Alias<'d>,
    #[serde(skip_serializing)]
    #[parameter()] #[parameter(skip)]
    pub(crate) arr: [u32; N],
    #[serde(skip_serializing)]
    pub(crate) a: Box<S3<'d>>,
    #[serde(skip_serializing)]
    parameter: Vec<S6<'d>>,
    #[parameter()] #[parameter(skip)]
    #[serde(skip_serializing)]
    #[doc(hidden)]
    #[allow(unused, dead_code)]
    marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    model: Box<S4<'d>>,
    #[serde(skip)]
    pub(crate) skip: Parameter<'d>,
    #[serde(skip_serializing)]
    layers: Box<S8<'d, S3<'d>>>,
}
impl<'d, const N: usize> Gen<'d> for S35<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S35 {
            field_updater: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.layers, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S36<'d> {
    #[serde(skip_serializing)]
    pub(crate) parameter: pu::Parameter<'d>,
    #[parameter(skip)]
    pub(crate) inner: f32,
    #[serde(skip_serializing)]
    pub(crate) skip: S29<'d>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[serde(skip)]
    #[allow(dead_code)]
    pub bias: pu::Parameter<'d>,
    #[allow(dead_code)]
    #[serde(skip)]
    #[parameter(skip)]
    #[cfg(all())]
    pub(crate) w: Vec<Parameter<'d>>,
    #[parameter(skip,)]
    #[serde(skip_serializing)]
    layers: Parameter<'d>,
    _hidden: Parameter<'d>,
    /// #[parameter(skip)]
    #[serde(skip_serializing)]
    #[doc = "parameter(skip)"]
    pub(crate) self_: S8<'d, S3<'d>>,
}
impl<'d> Gen<'d> for S36<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S36 {
            parameter: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.inner, true, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.w, true, f);
        Gen::visit(&self.layers, true, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.self_, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S37<'d, M: Model<'d>> {
    #[allow(unused, dead_code)]
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[serde(rename = "skip")]
    pub params: Parameter<'d>,
    #[serde(rename = "skip")]
    skip: Vec<Parameter<'d>>,
    #[serde(skip_serializing)]
    pub gradient: Box<S3<'d>>,
    #[doc = "parameter(skip)"]
    #[parameter(skip)]
    #[serde(skip_serializing, rename = "parameter")]
    #[doc(hidden)]
    device: f32,
    #[doc(hidden)]
    /// documented
    _hidden: Vec<Vec<Parameter<'d>>>,
    #[allow(unused, dead_code)]
    #[doc(hidden)]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) r#move: Vec<S24<'d, 'static>>,
    pub z9: Vec<Parameter<'d>>,
    #[serde(skip)]
    /// #[parameter(skip)]
    pub parameter: S20<'d>,
    #[cfg_attr(all(), serde(skip))]
    #[cfg(all())]
    pub layers: Box<S22<'d, 2>>,
    #[cfg_attr(all(), allow(dead_code))]
    #[serde(rename = "skip")]
    value: Vec<Parameter<'d>>,
    #[cfg_attr(all(), serde(skip))]
    pub(crate) r#type: Vec<M>,
    #[cfg_attr(all(), serde(skip))]
    #[parameter(skip,)]
    k: Option<Parameter<'d>>,
}
impl<'d, M: Model<'d>> Gen<'d> for S37<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S37 {
            marker: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.device, true, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.k, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S38<'d> {
    #[serde(skip_serializing)]
    w: S5<'d>,
    /// documented
    #[parameter(skip)]
    skip: String,
    #[serde(skip)]
    #[parameter()] #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S38<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S38 {
            w: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.skip, true, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S39<'d, M> where M: Model<'d> {
    bias: Parameter<'d>,
    #[parameter(skip)]
    #[doc(hidden)]
    marker: PhantomData<&'d ()>,
    pub stats: Box<Parameter<'d>>,
    pub(crate) value: Vec<Vec<Parameter<'d>>>,
    #[allow(unused, dead_code)]
    /// documented
    pub(crate) k: M,
    pub parameter: pu::Parameter<'d>,
    #[parameter(skip)]
    pub(crate) inner: Option<Parameter<'d>>,
    pub(crate) w: Vec<S10<'d>>,
    pub z9: Vec<Parameter<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    #[doc(hidden)]
    pub(crate) a: Box<S3<'d>>,
    #[parameter(skip)]
    b: Option<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) r#move: Vec<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) params: Option<Parameter<'d>>,
}
impl<'d, M> Gen<'d> for S39<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S39 {
            bias: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.inner, true, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.b, true, f);
        Gen::visit(&self.r#move, true, f);
        Gen::visit(&self.params, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S40<'d> {
    w: Vec<S13<'d>>,
    /// #[parameter(skip)]
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    /// #[parameter(skip)]
    #[allow(unused, dead_code)]
    gradient: Parameter<'d>,
    model: Vec<Vec<S3<'d>>>,
}
impl<'d> Gen<'d> for S40<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S40 {
            w: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.model, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S41<'d> {
    #[doc = "parameter(skip)"]
    /// #[parameter(skip)]
    #[parameter(frozen, skip)]
    marker: PhantomData<&'d ()>,
    device: Vec<Parameter<'d>>,
    #[doc = "parameter(skip)"]
    layers: Box<S10<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    value: Parameter<'d>,
}
impl<'d> Gen<'d> for S41<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S41 {
            marker: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.value, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S42<'d, 's: 'd> {
    #[serde(skip_serializing)]
    #[parameter(frozen, skip)]
    pub z9: HashMap<String, Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[serde(skip_serializing)]
    #[parameter(skip, frozen)]
    pub(crate) name: &'s str,
    #[cfg_attr(all(), serde(skip))]
    bias: Vec<S28<'d, 2>>,
}
impl<'d, 's: 'd> Gen<'d> for S42<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S42 {
            z9: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.z9, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.name, true, f);
        Gen::visit(&self.bias, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S43<'d> {
    #[serde(skip_serializing)]
    #[doc = "parameter(skip)"]
    pub b: Vec<S6<'d>>,
    #[parameter(skip)]
    #[doc(hidden)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S43<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S43 {
            b: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S44<'d, M: Model<'d>> {
    #[parameter(frozen, skip)]
    pub marker: PhantomData<&'d ()>,
    #[cfg(all())]
    pub params: Parameter<'d>,
    /// documented
    #[serde(skip_serializing)]
    inner: M,
    /// #[parameter(skip)]
    /// documented
    #[serde(skip_serializing)]
    pub w: S16<'d, 4>,
    #[serde(skip_serializing)]
    pub(crate) model: M,
    /// #[parameter(skip)]
    parameter: Vec<Parameter<'d>>,
    #[serde(skip)]
    k: Vec<S37<'d, S10<'d>>>,
    #[cfg(all())]
    #[allow(unused, dead_code)]
    #[serde(skip_serializing)]
    r#move: Vec<S40<'d>>,
    #[serde(skip_serializing)]
    #[doc = "parameter(skip)"]
    pub(crate) self_: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S44<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S44 {
            marker: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.self_, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S45<'d, M: Model<'d>> {
    #[doc = "parameter(skip)"]
    #[serde(skip)]
    /// documented
    pub(crate) g_m: M,
    /// documented
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(skip, frozen)]
    pub marker: PhantomData<&'d ()>,
}
impl<'d, M: Model<'d>> Gen<'d> for S45<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S45 {
            g_m: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S46<'d, const N: usize> {
    pub value: Alias<'d>,
    pub parameters: S18<'d>,
    pub w: Box<Parameter<'d>>,
    long_field_name_number_twelve: Vec<S36<'d>>,
    /// documented
    pub(crate) layers: Vec<S4<'d>>,
    #[parameter(skip)]
    pub(crate) arr: [u32; N],
    #[cfg(all())]
    pub field_updater: Box<S23<'d, 'static>>,
    pub(crate) b: Vec<S2<'d>>,
    #[parameter(skip)]
    #[doc(hidden)]
    pub(crate) marker: PhantomData<&'d ()>,
    pub skip: Vec<S23<'d, 'static>>,
    pub model: Alias<'d>,
    pub stats: Alias<'d>,
    /// #[parameter(skip)]
    pub gradient: Vec<Vec<S32<'d, 4>>>,
    #[parameter()] #[parameter(skip)]
    self_: u32,
}
impl<'d, const N: usize> Gen<'d> for S46<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S46 {
            value: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.self_, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S47<'d> {
    pub(crate) self_: S14<'d, 'static>,
    #[parameter()] #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[doc(hidden)]
    pub(crate) params: Box<S17<'d>>,
    pub parameters: Parameter<'d>,
}
impl<'d> Gen<'d> for S47<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S47 {
            self_: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S48<'d, const N: usize = 3> {
    /// #[parameter(skip)]
    stats: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    pub params: pu::Parameter<'d>,
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[doc = "parameter(skip)"]
    pub(crate) a: Vec<Parameter<'d>>,
    #[parameter()] #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    arr: [u32; N],
}
impl<'d, const N: usize> Gen<'d> for S48<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S48 {
            stats: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.arr, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S49<'d, M> where M: Model<'d> {
    #[parameter()] #[parameter(skip)]
    #[doc(hidden)]
    #[cfg(all())]
    marker: PhantomData<&'d ()>,
    pub(crate) g_m: M,
    pub parameters: Parameter<'d>,
}
impl<'d, M> Gen<'d> for S49<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S49 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S50<'d> {
    #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    marker: PhantomData<&'d ()>,
    #[allow(dead_code)]
    #[cfg_attr(all(), serde(skip))]
    pub self_: Vec<Vec<S35<'d, 4>>>,
    #[cfg_attr(all(), serde(skip))]
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(skip)]
    pub a: String,
    #[serde(skip)]
    z9: pu::Parameter<'d>,
}
impl<'d> Gen<'d> for S50<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S50 {
            marker: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.a, true, f);
        Gen::visit(&self.z9, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S51<'d> {
    field_updater: S34<'d, S4<'d>>,
    pub(crate) params: Parameter<'d>,
    #[parameter(skip)]
    pub r#type: f32,
    #[parameter(skip)]
    #[allow(dead_code)]
    pub marker: PhantomData<&'d ()>,
    pub(crate) gradient: S31<'d>,
    pub(crate) k: Box<S46<'d, 3>>,
    w: Parameter<'d>,
    #[parameter(skip)]
    pub(crate) skip: u32,
    pub b: S23<'d, 'static>,
}
impl<'d> Gen<'d> for S51<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S51 {
            field_updater: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.r#type, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.skip, true, f);
        Gen::visit(&self.b, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S52<'d, const N: usize, M: Model<'d>> {
    pub model: Vec<Parameter<'d>>,
    #[serde(skip_serializing)]
    #[cfg_attr(all(), allow(dead_code))]
    pub inner: Vec<S8<'d, S3<'d>>>,
    pub _hidden: Vec<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) b: u32,
    #[parameter(skip)]
    #[serde(rename = "skip")]
    pub marker: PhantomData<&'d ()>,
    #[serde(skip_serializing)]
    k: M,
    #[allow(dead_code)]
    /// documented
    #[serde(skip)]
    r#type: S11<'d, Vec<Parameter<'d>>>,
    #[doc = "parameter(skip)"]
    #[cfg_attr(all(), serde(skip))]
    #[doc(hidden)]
    pub(crate) x1: M,
    #[serde(skip_serializing)]
    pub(crate) bias: S9<'d, 0>,
    #[cfg_attr(all(), serde(skip))]
    #[parameter()] #[parameter(skip)]
    pub arr: [u32; N],
    #[serde(skip)]
    #[doc = "parameter(skip)"]
    pub(crate) skip: Vec<M>,
    pub long_field_name_number_twelve: Vec<Vec<Parameter<'d>>>,
    #[cfg_attr(all(), serde(skip))]
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) a: M,
    #[parameter(skip)]
    #[allow(dead_code)]
    #[doc = "parameter(skip)"]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) gradient: Vec<S37<'d, S10<'d>>>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S52<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S52 {
            model: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.b, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.gradient, true, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S53<'d, const N: usize = 3> {
    value: Vec<Vec<Parameter<'d>>>,
    #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    arr: [u32; N],
    #[doc = "parameter(skip)"]
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
}
impl<'d, const N: usize> Gen<'d> for S53<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S53 {
            value: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S54<'d, const N: usize, M: Model<'d>> {
    #[parameter(skip)]
    pub(crate) a: Parameter<'d>,
    #[allow(unused, dead_code)]
    #[serde(skip)]
    pub(crate) parameter: Vec<S50<'d>>,
    #[serde(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    pub r#type: Vec<S13<'d>>,
    #[cfg_attr(all(), serde(skip))]
    parameters: S4<'d>,
    /// #[parameter(skip)]
    /// documented
    b: Vec<Parameter<'d>>,
    #[doc = "parameter(skip)"]
    #[doc(hidden)]
    #[parameter(frozen, skip)]
    marker: PhantomData<&'d ()>,
    #[serde(skip_serializing)]
    pub model: Vec<Parameter<'d>>,
    #[serde(skip_serializing)]
    pub field_updater: Vec<Vec<Parameter<'d>>>,
    pub bias: Parameter<'d>,
    #[serde(skip)]
    _hidden: Vec<S20<'d>>,
    #[doc = "parameter(skip)"]
    #[serde(skip_serializing)]
    device: Vec<M>,
    #[serde(skip_serializing)]
    /// documented
    #[cfg(all())]
    #[parameter(skip)]
    arr: [u32; N],
    long_field_name_number_twelve: Vec<Parameter<'d>>,
    #[serde(skip_serializing)]
    pub layers: Vec<Vec<S39<'d, Vec<Parameter<'d>>>>>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S54<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S54 {
            a: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.a, true, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.layers, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S55<'d, const N: usize, M: Model<'d>> {
    #[cfg_attr(all(), serde(skip))]
    pub parameters: Vec<M>,
    #[parameter(skip)]
    #[serde(skip_serializing)]
    pub arr: [u32; N],
    #[serde(skip)]
    #[allow(dead_code)]
    pub(crate) r#move: Vec<S36<'d>>,
    #[parameter(skip,)]
    pub marker: PhantomData<&'d ()>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S55<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S55 {
            parameters: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S56<'d> {
    #[allow(dead_code)]
    #[cfg(all())]
    pub(crate) _hidden: S19<'d, 'static>,
    parameters: Vec<Vec<S37<'d, S10<'d>>>>,
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    layers: Vec<Vec<Parameter<'d>>>,
}
impl<'d> Gen<'d> for S56<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S56 {
            _hidden: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.layers, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S57<'d> {
    z9: Parameter<'d>,
    #[parameter()] #[parameter(skip)]
    #[allow(unused, dead_code)]
    pub(crate) r#move: String,
    pub value: Box<S25<'d, 3, S2<'d>>>,
    #[doc = "parameter(skip)"]
    /// documented
    pub(crate) b: Box<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S57<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S57 {
            z9: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.r#move, true, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S58<'d> {
    field_updater: pu::Parameter<'d>,
    k: Vec<Vec<S48<'d>>>,
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S58<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S58 {
            field_updater: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S59<'d, M> where M: Model<'d> {
    #[allow(unused, dead_code)]
    #[serde(skip_serializing)]
    pub(crate) a: M,
    #[cfg_attr(all(), serde(skip))]
    model: Vec<S19<'d, 'static>>,
    #[allow(dead_code)]
    #[parameter(skip)]
    #[serde(skip_serializing)]
    marker: PhantomData<&'d ()>,
}
impl<'d, M> Gen<'d> for S59<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S59 {
            a: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S60<'d> {
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    pub gradient: Vec<Parameter<'d>>,
    #[serde(skip)]
    device: Vec<S46<'d, 3>>,
    r#move: Parameter<'d>,
}
impl<'d> Gen<'d> for S60<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S60 {
            marker: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S61<'d, 's: 'd> {
    #[allow(dead_code)]
    #[cfg(all())]
    pub(crate) _hidden: Vec<Vec<S1<'d>>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    pub r#move: S57<'d>,
    pub(crate) skip: Vec<S55<'d, 0, S28<'d, 2>>>,
    r#type: Vec<Parameter<'d>>,
    #[parameter(skip)]
    name: &'s str,
}
impl<'d, 's: 'd> Gen<'d> for S61<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S61 {
            _hidden: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.name, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S62<'d, M> where M: Model<'d> {
    #[allow(unused, dead_code)]
    #[parameter(skip,)]
    /// #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[serde(skip)]
    /// documented
    pub(crate) g_m: M,
}
impl<'d, M> Gen<'d> for S62<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S62 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S63<'d, M: Model<'d>> {
    #[parameter(skip,)]
    #[allow(unused, dead_code)]
    #[doc = "parameter(skip)"]
    marker: PhantomData<&'d ()>,
    /// documented
    pub x1: Vec<M>,
}
impl<'d, M: Model<'d>> Gen<'d> for S63<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S63 {
            marker: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.x1, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S64<'d> {
    #[cfg_attr(all(), allow(dead_code))]
    pub device: Vec<S4<'d>>,
    w: Parameter<'d>,
    #[doc = "parameter(skip)"]
    params: Alias<'d>,
    #[parameter(frozen, skip)]
    marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S64<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S64 {
            device: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S65<'d> {
    #[parameter(skip)]
    inner: Vec<Parameter<'d>>,
    #[cfg_attr(all(), serde(skip))]
    w: Box<Parameter<'d>>,
    #[serde(skip)]
    _hidden: Vec<S62<'d, Vec<Parameter<'d>>>>,
    #[parameter(frozen, skip)]
    /// documented
    #[allow(dead_code)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S65<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S65 {
            inner: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.inner, true, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S66<'d, const N: usize, M: Model<'d>> {
    #[doc(hidden)]
    #[cfg(all())]
    pub self_: Vec<S25<'d, 3, S2<'d>>>,
    pub(crate) params: Vec<M>,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    /// #[parameter(skip)]
    #[parameter()] #[parameter(skip)]
    pub a: Option<Parameter<'d>>,
    stats: S55<'d, 0, S28<'d, 2>>,
    #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    #[doc(hidden)]
    arr: [u32; N],
    pub(crate) parameter: M,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S66<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S66 {
            self_: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.a, true, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.parameter, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S67<'d, 's> {
    #[cfg_attr(all(), serde(skip))]
    #[cfg_attr(all(), allow(dead_code))]
    #[allow(dead_code)]
    pub(crate) w: Vec<S24<'d, 'static>>,
    #[serde(skip_serializing)]
    #[parameter(skip)]
    pub name: &'s str,
    #[cfg(all())]
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[doc(hidden)]
    #[parameter(skip)]
    #[serde(skip_serializing)]
    #[allow(unused, dead_code)]
    pub field_updater: f32,
    pub inner: Vec<Parameter<'d>>,
}
impl<'d, 's> Gen<'d> for S67<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S67 {
            w: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.name, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.field_updater, true, f);
        Gen::visit(&self.inner, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S68<'d, const N: usize> {
    #[parameter(skip)]
    r#type: Parameter<'d>,
    #[allow(dead_code)]
    #[parameter(skip)]
    #[allow(unused, dead_code)]
    pub marker: PhantomData<&'d ()>,
    #[doc(hidden)]
    /// documented
    pub(crate) k: S13<'d>,
    /// #[parameter(skip)]
    #[parameter(skip)]
    pub gradient: S25<'d, 3, S2<'d>>,
    #[parameter(skip, frozen)]
    arr: [u32; N],
    pub field_updater: Vec<S35<'d, 4>>,
    pub(crate) a: Parameter<'d>,
    pub(crate) skip: Vec<Parameter<'d>>,
}
impl<'d, const N: usize> Gen<'d> for S68<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S68 {
            r#type: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#type, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.gradient, true, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.skip, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S69<'d> {
    #[allow(dead_code)]
    #[allow(unused, dead_code)]
    pub(crate) _hidden: Vec<Parameter<'d>>,
    #[cfg(all())]
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(skip)]
    pub(crate) parameters: f32,
    r#move: Vec<S19<'d, 'static>>,
    #[allow(unused, dead_code)]
    #[allow(dead_code)]
    pub(crate) model: S36<'d>,
    bias: S68<'d, 1>,
    pub(crate) field_updater: S43<'d>,
    #[parameter()] #[parameter(skip)]
    pub(crate) inner: Parameter<'d>,
    #[parameter(frozen, skip)]
    pub marker: PhantomData<&'d ()>,
    #[cfg(all())]
    k: Vec<S51<'d>>,
    #[doc = "parameter(skip)"]
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) params: Vec<S37<'d, S10<'d>>>,
    pub(crate) stats: S33<'d>,
    /// #[parameter(skip)]
    #[doc = "parameter(skip)"]
    pub r#type: Vec<Parameter<'d>>,
    pub(crate) gradient: Box<S16<'d, 4>>,
}
impl<'d> Gen<'d> for S69<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S69 {
            _hidden: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.parameters, true, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.inner, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.gradient, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S70<'d> {
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[cfg(all())]
    #[allow(dead_code)]
    pub(crate) parameter: Box<S40<'d>>,
}
impl<'d> Gen<'d> for S70<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S70 {
            marker: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.parameter, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S71<'d> {
    #[allow(unused, dead_code)]
    #[doc = "parameter(skip)"]
    pub(crate) b: Vec<Parameter<'d>>,
    pub(crate) a: Parameter<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    /// #[parameter(skip)]
    pub(crate) skip: Vec<S67<'d, 'static>>,
    pub(crate) bias: pu::Parameter<'d>,
    field_updater: S64<'d>,
    pub stats: Parameter<'d>,
    #[doc = "parameter(skip)"]
    #[doc(hidden)]
    pub parameter: S51<'d>,
    pub(crate) params: S58<'d>,
    #[parameter()] #[parameter(skip)]
    /// #[parameter(skip)]
    #[doc = "parameter(skip)"]
    marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S71<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S71 {
            b: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S72<'d, M: Model<'d>> {
    x1: Vec<Parameter<'d>>,
    #[allow(dead_code)]
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    pub(crate) model: Vec<Vec<S59<'d, S17<'d>>>>,
    #[parameter(skip)]
    pub(crate) params: Vec<Parameter<'d>>,
    #[allow(unused, dead_code)]
    /// documented
    pub(crate) b: M,
    #[parameter(skip)]
    pub(crate) self_: f32,
}
impl<'d, M: Model<'d>> Gen<'d> for S72<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S72 {
            x1: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.params, true, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.self_, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S73<'d> {
    pub b: Vec<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[cfg(all())]
    /// documented
    pub(crate) gradient: Vec<Parameter<'d>>,
    #[cfg(all())]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) k: Vec<S38<'d>>,
    #[serde(skip)]
    pub _hidden: Vec<Parameter<'d>>,
    #[serde(skip)]
    pub(crate) r#type: Box<S52<'d, 4, S3<'d>>>,
}
impl<'d> Gen<'d> for S73<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S73 {
            b: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S74<'d, const N: usize = 3> {
    #[parameter(skip, frozen)]
    #[serde(rename = "skip")]
    pub marker: PhantomData<&'d ()>,
    #[parameter(skip)]
    #[doc(hidden)]
    #[serde(skip_serializing)]
    pub arr: [u32; N],
    #[doc = "parameter(skip)"]
    #[serde(skip_serializing)]
    long_field_name_number_twelve: Alias<'d>,
}
impl<'d, const N: usize> Gen<'d> for S74<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S74 {
            marker: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S75<'d, M: Model<'d>> {
    #[cfg_attr(all(), serde(skip))]
    inner: Vec<Parameter<'d>>,
    #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) marker: PhantomData<&'d ()>,
    #[allow(unused, dead_code)]
    #[doc = "parameter(skip)"]
    pub(crate) skip: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    pub(crate) b: M,
    #[serde(skip)]
    pub r#type: Parameter<'d>,
}
impl<'d, M: Model<'d>> Gen<'d> for S75<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S75 {
            inner: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S76<'d, 's: 'd> {
    pub b: pu::Parameter<'d>,
    #[parameter()] #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[doc(hidden)]
    #[allow(unused, dead_code)]
    pub inner: Vec<Vec<Parameter<'d>>>,
    #[parameter(skip)]
    name: &'s str,
    #[doc(hidden)]
    #[allow(dead_code)]
    pub r#move: Vec<Parameter<'d>>,
}
impl<'d, 's: 'd> Gen<'d> for S76<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S76 {
            b: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.name, true, f);
        Gen::visit(&self.r#move, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S77<'d> {
    #[allow(dead_code)]
    #[doc = "parameter(skip)"]
    parameters: S32<'d, 4>,
    #[parameter()] #[parameter(skip)]
    parameter: S50<'d>,
    /// #[parameter(skip)]
    #[parameter(frozen, skip)]
    pub marker: PhantomData<&'d ()>,
    #[cfg(all())]
    #[parameter(skip)]
    pub(crate) value: Vec<S64<'d>>,
}
impl<'d> Gen<'d> for S77<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S77 {
            parameters: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.parameter, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.value, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S78<'d, M: Model<'d>> {
    #[allow(dead_code)]
    #[doc = "parameter(skip)"]
    pub(crate) z9: M,
    pub(crate) skip: S40<'d>,
    pub(crate) r#move: Parameter<'d>,
    pub(crate) a: Box<Parameter<'d>>,
    #[parameter(skip, frozen)]
    marker: PhantomData<&'d ()>,
    pub self_: Parameter<'d>,
}
impl<'d, M: Model<'d>> Gen<'d> for S78<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S78 {
            z9: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.self_, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S79<'d, 's: 'd> {
    #[serde(skip)]
    self_: pu::Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    pub field_updater: Vec<Vec<S28<'d, 2>>>,
    #[cfg_attr(all(), serde(skip))]
    pub skip: Vec<S50<'d>>,
    #[parameter(skip)]
    #[allow(dead_code)]
    pub(crate) parameters: f32,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    #[doc = "parameter(skip)"]
    pub device: Vec<Vec<S67<'d, 'static>>>,
    #[cfg(all())]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) params: S62<'d, Vec<Parameter<'d>>>,
    #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    pub name: &'s str,
}
impl<'d, 's: 'd> Gen<'d> for S79<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S79 {
            self_: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.parameters, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.name, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S80<'d> {
    #[serde(skip_serializing)]
    pub(crate) parameters: Vec<S0<'d>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    long_field_name_number_twelve: Vec<Vec<S11<'d, Vec<Parameter<'d>>>>>,
}
impl<'d> Gen<'d> for S80<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S80 {
            parameters: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S81<'d, M: Model<'d>> {
    #[cfg_attr(all(), serde(skip))]
    #[doc = "parameter(skip)"]
    #[allow(unused, dead_code)]
    pub parameter: Box<S44<'d, Vec<Parameter<'d>>>>,
    #[serde(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(frozen, skip)]
    /// #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[serde(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    /// #[parameter(skip)]
    parameters: Vec<M>,
}
impl<'d, M: Model<'d>> Gen<'d> for S81<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S81 {
            parameter: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.parameters, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S82<'d, M: Model<'d>> {
    #[parameter(skip, frozen)]
    /// #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    pub(crate) g_m: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S82<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S82 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S83<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    #[cfg_attr(all(), allow(dead_code))]
    /// documented
    layers: S54<'d, 3, S49<'d, S31<'d>>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    g_m: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S83<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S83 {
            layers: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S84<'d> {
    #[cfg(all())]
    #[serde(skip_serializing)]
    #[doc = "parameter(skip)"]
    gradient: Parameter<'d>,
    #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    pub skip: Vec<S12<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    /// #[parameter(skip)]
    pub(crate) device: Vec<Parameter<'d>>,
    #[parameter(skip)]
    #[doc(hidden)]
    pub(crate) model: f32,
    #[serde(skip_serializing)]
    #[allow(unused, dead_code)]
    #[cfg(all())]
    x1: S17<'d>,
}
impl<'d> Gen<'d> for S84<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S84 {
            gradient: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.model, true, f);
        Gen::visit(&self.x1, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S85<'d> {
    stats: Vec<S81<'d, S40<'d>>>,
    #[parameter(skip)]
    w: Parameter<'d>,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    pub(crate) gradient: Vec<Vec<Parameter<'d>>>,
    pub r#move: pu::Parameter<'d>,
}
impl<'d> Gen<'d> for S85<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S85 {
            stats: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.w, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S86<'d, 's> {
    #[doc = "parameter(skip)"]
    #[cfg(all())]
    pub layers: S81<'d, S40<'d>>,
    #[doc = "parameter(skip)"]
    pub x1: pu::Parameter<'d>,
    w: Vec<Vec<Parameter<'d>>>,
    #[parameter(skip)]
    pub name: &'s str,
    _hidden: pu::Parameter<'d>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[doc = "parameter(skip)"]
    pub(crate) r#move: S32<'d, 4>,
    pub bias: Alias<'d>,
    /// documented
    #[doc(hidden)]
    pub(crate) self_: Parameter<'d>,
    a: Vec<S6<'d>>,
}
impl<'d, 's> Gen<'d> for S86<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S86 {
            layers: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.name, true, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.a, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S87<'d, const N: usize, M: Model<'d>> {
    #[parameter()] #[parameter(skip)]
    #[cfg(all())]
    pub marker: PhantomData<&'d ()>,
    #[doc = "parameter(skip)"]
    #[serde(skip_serializing)]
    #[parameter(frozen, skip)]
    arr: [u32; N],
    #[serde(skip)]
    #[cfg(all())]
    #[allow(dead_code)]
    pub g_m: M,
    #[allow(dead_code)]
    #[allow(unused, dead_code)]
    r#move: Vec<Vec<Parameter<'d>>>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S87<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S87 {
            marker: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S88<'d, const N: usize, M: Model<'d>> {
    #[doc(hidden)]
    /// #[parameter(skip)]
    #[parameter(skip)]
    pub(crate) gradient: String,
    pub(crate) layers: Alias<'d>,
    pub field_updater: M,
    a: Alias<'d>,
    #[doc = "parameter(skip)"]
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) params: Vec<Parameter<'d>>,
    #[cfg(all())]
    #[doc = "parameter(skip)"]
    pub bias: Parameter<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) long_field_name_number_twelve: Parameter<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    pub b: S51<'d>,
    #[doc = "parameter(skip)"]
    pub parameters: S18<'d>,
    #[cfg(all())]
    /// documented
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[parameter(skip)]
    /// #[parameter(skip)]
    #[allow(dead_code)]
    pub arr: [u32; N],
    #[doc = "parameter(skip)"]
    pub(crate) device: Vec<S83<'d>>,
    pub x1: Parameter<'d>,
    #[allow(dead_code)]
    pub inner: pu::Parameter<'d>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S88<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S88 {
            gradient: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.gradient, true, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.inner, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S89<'d> {
    #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    /// documented
    marker: PhantomData<&'d ()>,
    pub inner: Vec<Parameter<'d>>,
    #[serde(skip)]
    pub parameter: S70<'d>,
}
impl<'d> Gen<'d> for S89<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S89 {
            marker: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S90<'d, const N: usize> {
    #[parameter(skip)]
    pub arr: [u32; N],
    #[parameter(skip,)]
    pub marker: PhantomData<&'d ()>,
}
impl<'d, const N: usize> Gen<'d> for S90<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S90 {
            arr: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S91<'d, const N: usize, M: Model<'d>> {
    #[cfg(all())]
    #[parameter(skip, frozen)]
    #[allow(unused, dead_code)]
    arr: [u32; N],
    pub(crate) value: Vec<Vec<S19<'d, 'static>>>,
    #[allow(unused, dead_code)]
    pub g_m: M,
    #[parameter(skip)]
    /// #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S91<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S91 {
            arr: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S92<'d, M: Model<'d>> {
    #[cfg_attr(all(), serde(skip))]
    pub(crate) gradient: S28<'d, 2>,
    #[serde(skip)]
    #[doc = "parameter(skip)"]
    pub(crate) field_updater: Vec<S34<'d, S4<'d>>>,
    #[serde(skip_serializing)]
    #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    #[doc = "parameter(skip)"]
    pub(crate) marker: PhantomData<&'d ()>,
    #[serde(skip)]
    _hidden: Vec<Vec<S12<'d>>>,
    #[serde(skip_serializing)]
    pub(crate) self_: S51<'d>,
    #[cfg_attr(all(), serde(skip))]
    pub x1: Vec<S48<'d>>,
    #[serde(skip_serializing)]
    #[doc(hidden)]
    #[allow(unused, dead_code)]
    pub(crate) bias: S68<'d, 1>,
    #[parameter(skip,)]
    #[cfg_attr(all(), serde(skip))]
    pub params: Vec<S27<'d>>,
    #[allow(dead_code)]
    #[doc = "parameter(skip)"]
    #[serde(skip_serializing)]
    layers: Vec<M>,
}
impl<'d, M: Model<'d>> Gen<'d> for S92<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S92 {
            gradient: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.params, true, f);
        Gen::visit(&self.layers, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S93<'d> {
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(skip)]
    pub a: Parameter<'d>,
    #[serde(skip_serializing, rename = "parameter")]
    #[parameter(frozen, skip)]
    marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S93<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S93 {
            a: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.a, true, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S94<'d> {
    #[parameter(skip,)]
    pub(crate) long_field_name_number_twelve: f32,
    #[parameter(skip, frozen)]
    #[cfg(all())]
    pub marker: PhantomData<&'d ()>,
    pub r#move: S65<'d>,
    #[cfg(all())]
    /// #[parameter(skip)]
    x1: Parameter<'d>,
    pub _hidden: Alias<'d>,
    /// documented
    pub(crate) b: S14<'d, 'static>,
}
impl<'d> Gen<'d> for S94<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S94 {
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.long_field_name_number_twelve, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.b, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S95<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    #[allow(dead_code)]
    #[cfg_attr(all(), allow(dead_code))]
    pub parameter: Box<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[doc(hidden)]
    /// #[parameter(skip)]
    g_m: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S95<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S95 {
            parameter: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S96<'d> {
    pub(crate) device: S14<'d, 'static>,
    #[doc = "parameter(skip)"]
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[doc(hidden)]
    pub(crate) field_updater: S11<'d, Vec<Parameter<'d>>>,
}
impl<'d> Gen<'d> for S96<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S96 {
            device: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.field_updater, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S97<'d> {
    #[cfg_attr(all(), serde(skip))]
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S97<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S97 {
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S98<'d> {
    #[allow(dead_code)]
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) model: Parameter<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(frozen, skip)]
    pub(crate) parameters: Vec<Parameter<'d>>,
    pub bias: Vec<Parameter<'d>>,
    pub value: pu::Parameter<'d>,
    #[parameter(skip,)]
    marker: PhantomData<&'d ()>,
    #[parameter(skip)]
    r#type: S51<'d>,
}
impl<'d> Gen<'d> for S98<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S98 {
            model: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.parameters, true, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.r#type, true, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S99<'d, M> where M: Model<'d> {
    #[allow(unused, dead_code)]
    #[cfg_attr(all(), serde(skip))]
    #[doc = "parameter(skip)"]
    pub w: Vec<S14<'d, 'static>>,
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    #[allow(unused, dead_code)]
    #[allow(dead_code)]
    a: pu::Parameter<'d>,
    #[allow(unused, dead_code)]
    #[serde(skip)]
    /// documented
    pub inner: Vec<M>,
    #[parameter(skip)]
    #[serde(rename = "skip")]
    #[allow(unused, dead_code)]
    /// documented
    gradient: String,
    r#move: Vec<Parameter<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    #[serde(skip_serializing)]
    pub(crate) z9: Parameter<'d>,
    #[allow(unused, dead_code)]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) skip: Alias<'d>,
    pub(crate) params: Vec<Vec<Parameter<'d>>>,
}
impl<'d, M> Gen<'d> for S99<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S99 {
            w: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.gradient, true, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.params, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S100<'d, const N: usize, M: Model<'d>> {
    #[parameter(skip)]
    pub arr: [u32; N],
    #[allow(unused, dead_code)]
    /// #[parameter(skip)]
    #[parameter(frozen, skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    /// documented
    #[cfg(all())]
    inner: M,
    #[doc = "parameter(skip)"]
    skip: Vec<Vec<Parameter<'d>>>,
    pub x1: Vec<S15<'d>>,
    /// #[parameter(skip)]
    pub device: Vec<Parameter<'d>>,
    #[allow(unused, dead_code)]
    #[cfg_attr(all(), allow(dead_code))]
    gradient: S84<'d>,
    pub(crate) bias: S16<'d, 4>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S100<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S100 {
            arr: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.bias, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S101<'d, M: Model<'d>> {
    #[allow(dead_code)]
    #[cfg(all())]
    #[cfg_attr(all(), serde(skip))]
    pub long_field_name_number_twelve: M,
    #[cfg_attr(all(), serde(skip))]
    parameter: Vec<Vec<S21<'d, 3>>>,
    #[cfg(all())]
    #[parameter(skip)]
    #[doc = "parameter(skip)"]
    pub marker: PhantomData<&'d ()>,
    #[parameter(skip)]
    #[serde(rename = "skip")]
    pub stats: f32,
    #[serde(skip_serializing)]
    pub value: M,
    #[serde(skip)]
    #[parameter(skip,)]
    skip: S2<'d>,
    /// #[parameter(skip)]
    self_: Parameter<'d>,
    #[serde(skip_serializing)]
    #[doc = "parameter(skip)"]
    k: S87<'d, 1, S75<'d, S8<'d, S3<'d>>>>,
    #[serde(skip_serializing)]
    pub(crate) b: M,
    #[cfg_attr(all(), serde(skip))]
    /// #[parameter(skip)]
    #[cfg(all())]
    pub x1: Vec<S24<'d, 'static>>,
    #[serde(skip_serializing, rename = "parameter")]
    pub(crate) r#move: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    pub z9: Alias<'d>,
    #[cfg(all())]
    pub a: Parameter<'d>,
}
impl<'d, M: Model<'d>> Gen<'d> for S101<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S101 {
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.stats, true, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.skip, true, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.a, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S102<'d, M> where M: Model<'d> {
    #[parameter(skip)]
    #[allow(unused, dead_code)]
    #[allow(dead_code)]
    pub marker: PhantomData<&'d ()>,
    /// documented
    g_m: M,
}
impl<'d, M> Gen<'d> for S102<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S102 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S103<'d> {
    #[serde(rename = "skip")]
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S103<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S103 {
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S104<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    value: Vec<Parameter<'d>>,
    #[serde(skip_serializing)]
    stats: M,
    #[allow(unused, dead_code)]
    #[allow(dead_code)]
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
}
impl<'d, M: Model<'d>> Gen<'d> for S104<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S104 {
            value: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S105<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    w: Box<S67<'d, 'static>>,
    #[parameter(frozen, skip)]
    #[doc = "parameter(skip)"]
    pub(crate) marker: PhantomData<&'d ()>,
    pub value: Vec<Parameter<'d>>,
    r#move: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S105<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S105 {
            w: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S106<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    pub(crate) z9: S59<'d, S17<'d>>,
    #[parameter(skip, frozen)]
    marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) long_field_name_number_twelve: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S106<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S106 {
            z9: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S107<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    #[doc = "parameter(skip)"]
    /// #[parameter(skip)]
    pub value: Parameter<'d>,
    z9: Vec<Vec<Parameter<'d>>>,
    #[allow(unused, dead_code)]
    #[doc = "parameter(skip)"]
    #[serde(skip)]
    pub g_m: M,
    #[parameter(skip,)]
    marker: PhantomData<&'d ()>,
    #[serde(skip_serializing, rename = "parameter")]
    pub(crate) long_field_name_number_twelve: Vec<Vec<Parameter<'d>>>,
}
impl<'d, M: Model<'d>> Gen<'d> for S107<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S107 {
            value: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S108<'d, M: Model<'d>> {
    pub _hidden: Parameter<'d>,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    pub parameters: Vec<S20<'d>>,
    pub g_m: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S108<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S108 {
            _hidden: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.g_m, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S109<'d> {
    #[cfg(all())]
    stats: S13<'d>,
    #[doc(hidden)]
    pub inner: Vec<Vec<Parameter<'d>>>,
    #[doc(hidden)]
    /// documented
    _hidden: Vec<S48<'d>>,
    #[doc = "parameter(skip)"]
    /// #[parameter(skip)]
    layers: Vec<Parameter<'d>>,
    #[doc = "parameter(skip)"]
    pub k: Vec<S98<'d>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S109<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S109 {
            stats: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S110<'d, M> where M: Model<'d> {
    #[allow(unused, dead_code)]
    pub(crate) model: M,
    #[parameter(skip,)]
    pub marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), allow(dead_code))]
    pub long_field_name_number_twelve: M,
    /// #[parameter(skip)]
    pub(crate) params: Vec<Vec<S4<'d>>>,
    #[parameter(skip,)]
    pub(crate) parameter: String,
    layers: Alias<'d>,
    #[parameter(skip)]
    pub _hidden: u32,
}
impl<'d, M> Gen<'d> for S110<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S110 {
            model: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.parameter, true, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self._hidden, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S111<'d, M: Model<'d>> {
    #[serde(skip)]
    r#move: Vec<M>,
    #[allow(unused, dead_code)]
    #[serde(skip)]
    pub value: M,
    #[allow(dead_code)]
    #[cfg(all())]
    pub w: Vec<Parameter<'d>>,
    #[parameter(frozen, skip)]
    #[serde(rename = "skip")]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d, M: Model<'d>> Gen<'d> for S111<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S111 {
            r#move: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S112<'d> {
    #[parameter(skip)]
    pub k: Vec<S62<'d, Vec<Parameter<'d>>>>,
    #[parameter()] #[parameter(skip)]
    /// documented
    pub(crate) marker: PhantomData<&'d ()>,
    r#move: Vec<Parameter<'d>>,
}
impl<'d> Gen<'d> for S112<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S112 {
            k: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.k, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.r#move, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S113<'d> {
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[doc(hidden)]
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) params: Box<Parameter<'d>>,
    #[allow(unused, dead_code)]
    #[cfg(all())]
    device: Vec<S55<'d, 0, S28<'d, 2>>>,
    pub field_updater: Vec<Parameter<'d>>,
    #[parameter(frozen, skip)]
    /// documented
    #[allow(unused, dead_code)]
    pub(crate) w: f32,
    parameter: Parameter<'d>,
}
impl<'d> Gen<'d> for S113<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S113 {
            marker: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.w, true, f);
        Gen::visit(&self.parameter, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S114<'d, const N: usize> {
    #[serde(skip_serializing)]
    #[parameter(skip)]
    pub(crate) arr: [u32; N],
    #[cfg_attr(all(), serde(skip))]
    value: Box<Parameter<'d>>,
    #[serde(skip)]
    #[doc(hidden)]
    #[allow(dead_code)]
    #[parameter()] #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d, const N: usize> Gen<'d> for S114<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S114 {
            arr: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S115<'d, const N: usize> {
    #[serde(skip_serializing)]
    #[parameter()] #[parameter(skip)]
    arr: [u32; N],
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(skip)]
    #[allow(unused, dead_code)]
    #[serde(skip_serializing)]
    pub gradient: f32,
    #[serde(skip)]
    pub(crate) self_: S27<'d>,
    #[serde(skip)]
    #[allow(unused, dead_code)]
    pub(crate) k: Vec<S32<'d, 4>>,
    #[cfg_attr(all(), allow(dead_code))]
    #[cfg(all())]
    #[serde(skip_serializing)]
    pub parameter: Vec<S69<'d>>,
    #[allow(dead_code)]
    #[serde(skip)]
    #[cfg(all())]
    pub(crate) w: Box<S66<'d, 0, S13<'d>>>,
    #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    /// #[parameter(skip)]
    r#move: f32,
    #[serde(rename = "skip")]
    #[parameter(skip)]
    #[allow(dead_code)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d, const N: usize> Gen<'d> for S115<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S115 {
            arr: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.gradient, true, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.r#move, true, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S116<'d, M> where M: Model<'d> {
    skip: Vec<Parameter<'d>>,
    #[parameter(skip)]
    /// #[parameter(skip)]
    b: u32,
    #[parameter(skip)]
    #[allow(dead_code)]
    pub marker: PhantomData<&'d ()>,
    /// documented
    _hidden: M,
}
impl<'d, M> Gen<'d> for S116<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S116 {
            skip: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.b, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self._hidden, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S117<'d, const N: usize, M: Model<'d>> {
    #[parameter(skip)]
    #[serde(rename = "skip")]
    marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    g_m: M,
    #[doc = "parameter(skip)"]
    /// #[parameter(skip)]
    parameter: Parameter<'d>,
    #[serde(skip)]
    skip: Vec<S62<'d, Vec<Parameter<'d>>>>,
    pub x1: Vec<Vec<Parameter<'d>>>,
    #[serde(skip)]
    #[parameter()] #[parameter(skip)]
    pub(crate) arr: [u32; N],
    /// documented
    #[doc = "parameter(skip)"]
    pub k: Vec<Parameter<'d>>,
    #[serde(skip)]
    /// #[parameter(skip)]
    device: S9<'d, 0>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S117<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S117 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.device, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S118<'d> {
    #[parameter(skip,)]
    pub(crate) marker: PhantomData<&'d ()>,
    pub(crate) model: Vec<Vec<S60<'d>>>,
    pub r#type: Vec<Parameter<'d>>,
    params: Box<Parameter<'d>>,
    pub(crate) device: Parameter<'d>,
    #[doc(hidden)]
    #[cfg_attr(all(), allow(dead_code))]
    pub skip: S85<'d>,
    #[allow(dead_code)]
    pub(crate) inner: pu::Parameter<'d>,
    #[parameter()] #[parameter(skip)]
    pub(crate) b: S28<'d, 2>,
    #[allow(unused, dead_code)]
    #[doc(hidden)]
    #[parameter(frozen, skip)]
    pub(crate) long_field_name_number_twelve: Parameter<'d>,
}
impl<'d> Gen<'d> for S118<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S118 {
            marker: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.b, true, f);
        Gen::visit(&self.long_field_name_number_twelve, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S119<'d> {
    #[doc(hidden)]
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) value: Vec<S15<'d>>,
    field_updater: Vec<Parameter<'d>>,
    /// #[parameter(skip)]
    pub(crate) b: Parameter<'d>,
    inner: Vec<Parameter<'d>>,
    pub w: Alias<'d>,
    #[parameter(frozen, skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), allow(dead_code))]
    params: pu::Parameter<'d>,
}
impl<'d> Gen<'d> for S119<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S119 {
            value: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.params, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S120<'d, const N: usize> {
    #[parameter(frozen, skip)]
    w: Parameter<'d>,
    #[parameter(skip, frozen)]
    pub arr: [u32; N],
    #[doc(hidden)]
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
}
impl<'d, const N: usize> Gen<'d> for S120<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S120 {
            w: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.w, true, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S121<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    /// #[parameter(skip)]
    pub r#type: Vec<Vec<Parameter<'d>>>,
    #[parameter(skip, frozen)]
    #[doc = "parameter(skip)"]
    #[cfg(all())]
    pub marker: PhantomData<&'d ()>,
    pub(crate) device: Vec<S63<'d, S49<'d, S31<'d>>>>,
    #[doc = "parameter(skip)"]
    /// documented
    pub g_m: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S121<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S121 {
            r#type: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.g_m, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S122<'d, M: Model<'d>> {
    #[parameter(skip, frozen)]
    pub marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), allow(dead_code))]
    stats: Parameter<'d>,
    pub b: Vec<S10<'d>>,
    pub layers: M,
    pub z9: Vec<S100<'d, 0, S9<'d, 0>>>,
    pub(crate) params: Vec<Parameter<'d>>,
    pub w: Vec<Parameter<'d>>,
}
impl<'d, M: Model<'d>> Gen<'d> for S122<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S122 {
            marker: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.w, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S123<'d, const N: usize> {
    parameter: Parameter<'d>,
    #[parameter(skip)]
    arr: [u32; N],
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[doc = "parameter(skip)"]
    #[cfg(all())]
    parameters: S57<'d>,
}
impl<'d, const N: usize> Gen<'d> for S123<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S123 {
            parameter: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.parameters, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S124<'d> {
    #[serde(skip_serializing)]
    /// #[parameter(skip)]
    #[cfg(all())]
    pub(crate) inner: Vec<Parameter<'d>>,
    #[serde(skip_serializing, rename = "parameter")]
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S124<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S124 {
            inner: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S125<'d, const N: usize = 3> {
    #[doc = "parameter(skip)"]
    device: Vec<Parameter<'d>>,
    /// documented
    #[parameter(frozen, skip)]
    #[allow(unused, dead_code)]
    #[serde(skip)]
    pub(crate) arr: [u32; N],
    #[serde(skip_serializing)]
    #[allow(unused, dead_code)]
    /// #[parameter(skip)]
    pub value: Alias<'d>,
    #[serde(skip_serializing)]
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[allow(unused, dead_code)]
    z9: Vec<Parameter<'d>>,
}
impl<'d, const N: usize> Gen<'d> for S125<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S125 {
            device: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.z9, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S126<'d, const N: usize> {
    #[allow(unused, dead_code)]
    #[doc = "parameter(skip)"]
    #[serde(skip_serializing)]
    skip: Vec<S9<'d, 0>>,
    #[cfg_attr(all(), serde(skip))]
    #[cfg(all())]
    pub inner: Box<S94<'d>>,
    #[parameter(skip)]
    #[serde(skip_serializing)]
    pub arr: [u32; N],
    #[serde(skip)]
    #[parameter(skip)]
    r#type: HashMap<String, Parameter<'d>>,
    #[serde(skip_serializing)]
    #[parameter(frozen, skip)]
    #[doc = "parameter(skip)"]
    pub self_: S77<'d>,
    /// #[parameter(skip)]
    #[parameter(frozen, skip)]
    marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    #[doc = "parameter(skip)"]
    pub(crate) parameter: Vec<Vec<S5<'d>>>,
    params: Parameter<'d>,
}
impl<'d, const N: usize> Gen<'d> for S126<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S126 {
            skip: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.r#type, true, f);
        Gen::visit(&self.self_, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.params, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S127<'d> {
    #[cfg_attr(all(), allow(dead_code))]
    /// #[parameter(skip)]
    pub parameter: Vec<Vec<Parameter<'d>>>,
    #[cfg(all())]
    #[parameter(skip)]
    /// documented
    model: Vec<Parameter<'d>>,
    pub value: Vec<S108<'d, Vec<Parameter<'d>>>>,
    pub(crate) k: Box<S96<'d>>,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    skip: Parameter<'d>,
    #[allow(dead_code)]
    pub(crate) _hidden: Vec<S33<'d>>,
    inner: Vec<S110<'d, S12<'d>>>,
    layers: Parameter<'d>,
    /// documented
    #[parameter(skip,)]
    pub(crate) field_updater: Vec<S19<'d, 'static>>,
    bias: Vec<S126<'d, 1>>,
    b: pu::Parameter<'d>,
    #[cfg(all())]
    #[parameter(skip)]
    #[doc = "parameter(skip)"]
    parameters: f32,
}
impl<'d> Gen<'d> for S127<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S127 {
            parameter: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.model, true, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.field_updater, true, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.parameters, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S128<'d, const N: usize> {
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[allow(unused, dead_code)]
    #[parameter(skip)]
    pub(crate) arr: [u32; N],
}
impl<'d, const N: usize> Gen<'d> for S128<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S128 {
            marker: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.arr, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S129<'d, const N: usize, M: Model<'d>> {
    #[parameter(skip, frozen)]
    #[allow(dead_code)]
    pub r#type: Parameter<'d>,
    gradient: M,
    #[cfg(all())]
    #[parameter(skip)]
    pub arr: [u32; N],
    #[parameter(skip,)]
    #[allow(unused, dead_code)]
    skip: f32,
    #[cfg(all())]
    #[allow(unused, dead_code)]
    #[parameter(frozen, skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    r#move: Parameter<'d>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S129<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S129 {
            r#type: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#type, true, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.skip, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.r#move, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S130<'d> {
    #[parameter(frozen, skip)]
    gradient: Option<Parameter<'d>>,
    #[doc = "parameter(skip)"]
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    field_updater: Parameter<'d>,
}
impl<'d> Gen<'d> for S130<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S130 {
            gradient: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.gradient, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.field_updater, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S131<'d> {
    /// documented
    #[parameter(skip,)]
    pub marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S131<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S131 {
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S132<'d> {
    #[parameter()] #[parameter(skip)]
    r#move: Vec<Parameter<'d>>,
    #[serde(skip)]
    pub model: pu::Parameter<'d>,
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    pub device: Box<Parameter<'d>>,
}
impl<'d> Gen<'d> for S132<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S132 {
            r#move: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#move, true, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.device, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S133<'d, 's: 'd> {
    pub(crate) parameter: Vec<Parameter<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    pub a: Parameter<'d>,
    skip: Parameter<'d>,
    /// #[parameter(skip)]
    #[parameter(skip)]
    pub name: &'s str,
    #[allow(dead_code)]
    #[doc = "parameter(skip)"]
    pub(crate) layers: Vec<Vec<Parameter<'d>>>,
    #[doc(hidden)]
    #[parameter()] #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    params: Parameter<'d>,
}
impl<'d, 's: 'd> Gen<'d> for S133<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S133 {
            parameter: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.name, true, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.params, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S134<'d, const N: usize> {
    #[parameter(skip)]
    pub(crate) arr: [u32; N],
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    pub(crate) b: Box<Parameter<'d>>,
}
impl<'d, const N: usize> Gen<'d> for S134<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S134 {
            arr: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.b, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S135<'d> {
    /// documented
    /// #[parameter(skip)]
    pub(crate) bias: Parameter<'d>,
    _hidden: Vec<Parameter<'d>>,
    pub(crate) device: Box<S7<'d>>,
    #[cfg(all())]
    gradient: Parameter<'d>,
    /// #[parameter(skip)]
    /// documented
    #[parameter()] #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    parameter: Vec<S36<'d>>,
    long_field_name_number_twelve: Vec<Parameter<'d>>,
    parameters: Parameter<'d>,
    pub(crate) self_: Vec<Parameter<'d>>,
    #[parameter(skip)]
    pub inner: HashMap<String, Parameter<'d>>,
    #[allow(unused, dead_code)]
    w: Vec<Vec<Parameter<'d>>>,
    /// #[parameter(skip)]
    pub(crate) x1: Vec<S9<'d, 0>>,
    /// #[parameter(skip)]
    #[allow(dead_code)]
    pub stats: Vec<Parameter<'d>>,
}
impl<'d> Gen<'d> for S135<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S135 {
            bias: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.inner, true, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.stats, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S136<'d> {
    pub device: Vec<S123<'d, 3>>,
    #[parameter(skip,)]
    pub marker: PhantomData<&'d ()>,
    pub z9: Box<S47<'d>>,
    /// #[parameter(skip)]
    pub(crate) _hidden: Vec<Parameter<'d>>,
}
impl<'d> Gen<'d> for S136<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S136 {
            device: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S137<'d> {
    #[allow(unused, dead_code)]
    /// documented
    pub(crate) r#move: Vec<Vec<S24<'d, 'static>>>,
    #[cfg_attr(all(), allow(dead_code))]
    #[doc(hidden)]
    inner: Vec<Parameter<'d>>,
    #[allow(dead_code)]
    pub(crate) w: Parameter<'d>,
    #[parameter(skip)]
    stats: u32,
    pub(crate) field_updater: Vec<Parameter<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    /// documented
    pub(crate) parameter: Alias<'d>,
    pub device: Vec<Parameter<'d>>,
    pub model: Vec<Vec<Parameter<'d>>>,
    pub(crate) k: Vec<S84<'d>>,
    #[parameter(skip)]
    self_: Vec<S119<'d>>,
    /// documented
    #[allow(unused, dead_code)]
    r#type: Alias<'d>,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    gradient: Vec<S114<'d, 2>>,
}
impl<'d> Gen<'d> for S137<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S137 {
            r#move: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.stats, true, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.self_, true, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.gradient, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S138<'d> {
    #[parameter(frozen, skip)]
    pub marker: PhantomData<&'d ()>,
    #[doc(hidden)]
    #[allow(dead_code)]
    #[parameter(skip,)]
    device: S83<'d>,
}
impl<'d> Gen<'d> for S138<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S138 {
            marker: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.device, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S139<'d, 's> {
    #[parameter(skip)]
    #[allow(unused, dead_code)]
    pub name: &'s str,
    bias: Vec<S36<'d>>,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
}
impl<'d, 's> Gen<'d> for S139<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S139 {
            name: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.name, true, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S140<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    #[parameter(skip)]
    #[cfg(all())]
    pub(crate) marker: PhantomData<&'d ()>,
    pub params: Box<Parameter<'d>>,
    pub(crate) z9: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S140<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S140 {
            marker: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.z9, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S141<'d> {
    #[cfg(all())]
    r#move: Vec<S38<'d>>,
    #[parameter(skip)]
    /// documented
    #[allow(dead_code)]
    pub marker: PhantomData<&'d ()>,
    pub x1: Vec<Parameter<'d>>,
}
impl<'d> Gen<'d> for S141<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S141 {
            r#move: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.x1, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S142<'d, const N: usize = 3> {
    #[cfg_attr(all(), serde(skip))]
    stats: Alias<'d>,
    #[parameter(skip)]
    #[serde(skip_serializing)]
    pub arr: [u32; N],
    pub(crate) gradient: Vec<Parameter<'d>>,
    #[serde(skip_serializing)]
    #[parameter(frozen, skip)]
    pub marker: PhantomData<&'d ()>,
}
impl<'d, const N: usize> Gen<'d> for S142<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S142 {
            stats: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S143<'d> {
    #[doc = "parameter(skip)"]
    pub stats: Alias<'d>,
    pub(crate) x1: Vec<Parameter<'d>>,
    #[parameter(frozen, skip)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S143<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S143 {
            stats: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.x1, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S144<'d, M> where M: Model<'d> {
    #[serde(skip)]
    long_field_name_number_twelve: Parameter<'d>,
    #[serde(skip)]
    pub g_m: M,
    #[doc = "parameter(skip)"]
    #[serde(skip_serializing)]
    _hidden: Vec<S142<'d>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[serde(rename = "skip")]
    pub(crate) field_updater: Parameter<'d>,
    #[parameter(skip)]
    gradient: u32,
}
impl<'d, M> Gen<'d> for S144<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S144 {
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.gradient, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S145<'d, const N: usize> {
    #[doc(hidden)]
    pub(crate) k: Box<Parameter<'d>>,
    #[allow(unused, dead_code)]
    #[parameter()] #[parameter(skip)]
    #[cfg(all())]
    arr: [u32; N],
    /// #[parameter(skip)]
    pub(crate) a: Vec<Vec<S72<'d, S17<'d>>>>,
    pub(crate) model: Vec<Parameter<'d>>,
    pub(crate) z9: Vec<S132<'d>>,
    pub params: Parameter<'d>,
    field_updater: Vec<S135<'d>>,
    pub long_field_name_number_twelve: Vec<Parameter<'d>>,
    r#type: Box<S9<'d, 0>>,
    value: Parameter<'d>,
    b: pu::Parameter<'d>,
    #[cfg(all())]
    /// documented
    pub bias: Vec<S121<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    /// documented
    pub(crate) stats: Vec<Vec<Parameter<'d>>>,
    #[parameter()] #[parameter(skip)]
    marker: PhantomData<&'d ()>,
}
impl<'d, const N: usize> Gen<'d> for S145<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S145 {
            k: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S146<'d> {
    #[allow(dead_code)]
    #[serde(skip_serializing)]
    #[doc = "parameter(skip)"]
    pub parameter: S112<'d>,
    #[serde(rename = "skip")]
    #[allow(unused, dead_code)]
    r#type: Vec<Vec<Parameter<'d>>>,
    #[cfg_attr(all(), serde(skip))]
    r#move: Box<Parameter<'d>>,
    #[allow(dead_code)]
    #[serde(skip_serializing, rename = "parameter")]
    #[parameter(skip, frozen)]
    marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S146<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S146 {
            parameter: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S147<'d, M: Model<'d>> {
    #[serde(skip)]
    pub(crate) self_: Box<Parameter<'d>>,
    #[parameter(frozen, skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[allow(dead_code)]
    /// #[parameter(skip)]
    pub parameters: Vec<Vec<Parameter<'d>>>,
    #[doc = "parameter(skip)"]
    pub(crate) model: Vec<Parameter<'d>>,
    #[allow(dead_code)]
    #[cfg_attr(all(), allow(dead_code))]
    #[serde(skip_serializing)]
    g_m: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S147<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S147 {
            self_: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.g_m, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S148<'d, const N: usize = 3> {
    /// documented
    pub(crate) inner: Vec<S134<'d, 3>>,
    layers: Parameter<'d>,
    #[parameter(skip,)]
    pub(crate) arr: [u32; N],
    #[parameter(frozen, skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[doc(hidden)]
    /// #[parameter(skip)]
    w: pu::Parameter<'d>,
    #[cfg(all())]
    #[doc = "parameter(skip)"]
    a: Box<S33<'d>>,
}
impl<'d, const N: usize> Gen<'d> for S148<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S148 {
            inner: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.a, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S149<'d, const N: usize, M: Model<'d>> {
    #[cfg_attr(all(), serde(skip))]
    #[parameter(skip,)]
    marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), allow(dead_code))]
    #[serde(skip)]
    pub self_: Box<S13<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    #[cfg_attr(all(), serde(skip))]
    pub g_m: M,
    #[parameter(skip)]
    #[serde(skip_serializing)]
    pub arr: [u32; N],
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S149<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S149 {
            marker: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.arr, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S150<'d, const N: usize, M: Model<'d>> {
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    pub(crate) g_m: M,
    #[cfg(all())]
    #[parameter(skip)]
    pub arr: [u32; N],
    w: Alias<'d>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S150<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S150 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.w, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S151<'d, 's: 'd> {
    #[cfg(all())]
    #[allow(dead_code)]
    pub(crate) stats: Parameter<'d>,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(skip)]
    pub field_updater: S142<'d>,
    pub(crate) self_: Vec<S44<'d, Vec<Parameter<'d>>>>,
    /// documented
    #[allow(unused, dead_code)]
    pub(crate) w: Vec<S119<'d>>,
    #[allow(dead_code)]
    #[cfg(all())]
    parameters: Parameter<'d>,
    /// #[parameter(skip)]
    #[cfg(all())]
    #[parameter(skip,)]
    pub name: &'s str,
    #[allow(dead_code)]
    b: Parameter<'d>,
}
impl<'d, 's: 'd> Gen<'d> for S151<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S151 {
            stats: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.field_updater, true, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.w, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.name, true, f);
        Gen::visit(&self.b, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S152<'d> {
    #[parameter(skip)]
    x1: Vec<Parameter<'d>>,
    #[allow(dead_code)]
    /// documented
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    pub field_updater: Box<S149<'d, 4, S93<'d>>>,
    #[doc = "parameter(skip)"]
    pub(crate) a: Vec<S32<'d, 4>>,
}
impl<'d> Gen<'d> for S152<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S152 {
            x1: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.x1, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.a, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S153<'d> {
    #[doc(hidden)]
    pub(crate) params: Vec<Vec<S122<'d, S82<'d, Vec<Parameter<'d>>>>>>,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    pub x1: Parameter<'d>,
}
impl<'d> Gen<'d> for S153<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S153 {
            params: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            x1: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.x1, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S154<'d> {
    #[parameter()] #[parameter(skip)]
    #[doc(hidden)]
    marker: PhantomData<&'d ()>,
    #[allow(unused, dead_code)]
    #[doc = "parameter(skip)"]
    pub stats: Parameter<'d>,
    #[parameter(frozen, skip)]
    #[serde(skip)]
    pub long_field_name_number_twelve: Vec<Parameter<'d>>,
    #[cfg_attr(all(), serde(skip))]
    #[cfg(all())]
    #[doc = "parameter(skip)"]
    pub(crate) inner: Vec<S30<'d, S27<'d>>>,
}
impl<'d> Gen<'d> for S154<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S154 {
            marker: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, true, f);
        Gen::visit(&self.inner, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S155<'d, const N: usize, M: Model<'d>> {
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), serde(skip))]
    pub(crate) model: Vec<Vec<S63<'d, S49<'d, S31<'d>>>>>,
    #[cfg_attr(all(), allow(dead_code))]
    #[doc = "parameter(skip)"]
    #[serde(skip_serializing)]
    pub g_m: M,
    #[cfg_attr(all(), serde(skip))]
    #[parameter(skip)]
    arr: [u32; N],
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S155<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S155 {
            marker: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.arr, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S156<'d, const N: usize, M: Model<'d>> {
    #[serde(skip)]
    pub gradient: Vec<S66<'d, 0, S13<'d>>>,
    /// documented
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) self_: Vec<Parameter<'d>>,
    #[serde(skip)]
    layers: Vec<M>,
    #[cfg_attr(all(), serde(skip))]
    pub field_updater: Vec<Vec<S48<'d>>>,
    #[serde(skip)]
    #[parameter(skip)]
    pub(crate) w: HashMap<String, Parameter<'d>>,
    #[serde(skip_serializing)]
    k: Vec<M>,
    #[cfg_attr(all(), serde(skip))]
    r#move: S47<'d>,
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    /// documented
    pub(crate) stats: Vec<Vec<Parameter<'d>>>,
    #[serde(skip)]
    #[parameter(skip)]
    pub(crate) arr: [u32; N],
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S156<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S156 {
            gradient: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.w, true, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self.arr, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S157<'d> {
    #[parameter(skip)]
    #[allow(dead_code)]
    pub stats: u32,
    pub k: Parameter<'d>,
    r#type: Parameter<'d>,
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
}
impl<'d> Gen<'d> for S157<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S157 {
            stats: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.stats, true, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S158<'d, M: Model<'d>> {
    #[cfg_attr(all(), allow(dead_code))]
    #[allow(dead_code)]
    pub(crate) parameter: Vec<M>,
    #[parameter(frozen, skip)]
    pub marker: PhantomData<&'d ()>,
    pub(crate) device: Vec<Parameter<'d>>,
    #[doc(hidden)]
    pub(crate) r#move: pu::Parameter<'d>,
}
impl<'d, M: Model<'d>> Gen<'d> for S158<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S158 {
            parameter: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            device: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameter, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.device, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S159<'d, M> where M: Model<'d> {
    #[cfg_attr(all(), serde(skip))]
    #[cfg_attr(all(), allow(dead_code))]
    r#type: Vec<S103<'d>>,
    #[serde(skip_serializing)]
    model: S16<'d, 4>,
    #[serde(skip_serializing, rename = "parameter")]
    pub value: Parameter<'d>,
    #[serde(skip)]
    pub(crate) skip: M,
    /// #[parameter(skip)]
    pub(crate) parameters: Vec<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
}
impl<'d, M> Gen<'d> for S159<'d, M> where M: Model<'d>, M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S159 {
            r#type: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            value: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.model, skipped, f);
        Gen::visit(&self.value, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.marker, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S160<'d, M: Model<'d>> {
    #[cfg_attr(all(), serde(skip))]
    gradient: Vec<M>,
    #[doc = "parameter(skip)"]
    #[cfg_attr(all(), serde(skip))]
    #[parameter(skip, frozen)]
    #[cfg_attr(all(), allow(dead_code))]
    marker: PhantomData<&'d ()>,
    #[cfg_attr(all(), allow(dead_code))]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) field_updater: Vec<S130<'d>>,
    #[parameter(skip,)]
    #[cfg_attr(all(), serde(skip))]
    pub bias: Parameter<'d>,
}
impl<'d, M: Model<'d>> Gen<'d> for S160<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S160 {
            gradient: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.bias, true, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S161<'d, const N: usize> {
    #[cfg_attr(all(), serde(skip))]
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    a: Vec<Parameter<'d>>,
    #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    #[allow(dead_code)]
    #[cfg_attr(all(), allow(dead_code))]
    pub arr: [u32; N],
}
impl<'d, const N: usize> Gen<'d> for S161<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S161 {
            marker: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.arr, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S162<'d, 's: 'd> {
    #[allow(unused, dead_code)]
    #[doc(hidden)]
    pub self_: Vec<S148<'d>>,
    field_updater: pu::Parameter<'d>,
    pub(crate) bias: Parameter<'d>,
    #[allow(dead_code)]
    /// documented
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    #[parameter(frozen, skip)]
    pub name: &'s str,
}
impl<'d, 's: 'd> Gen<'d> for S162<'d, 's> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S162 {
            self_: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            name: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.self_, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.bias, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.name, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S163<'d, M: Model<'d>> {
    #[parameter(skip)]
    /// #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    pub g_m: M,
}
impl<'d, M: Model<'d>> Gen<'d> for S163<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S163 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
    }
}

#[derive(Model, Serialize)]
#[allow(dead_code)]
pub struct S164<'d> {
    #[serde(skip_serializing)]
    #[allow(dead_code)]
    pub field_updater: Box<Parameter<'d>>,
    #[doc = "parameter(skip)"]
    #[serde(skip)]
    pub(crate) gradient: Vec<S56<'d>>,
    #[serde(skip_serializing)]
    params: Vec<S34<'d, S4<'d>>>,
    #[serde(skip_serializing)]
    pub k: Alias<'d>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    pub(crate) b: Vec<Parameter<'d>>,
    #[serde(skip)]
    pub r#move: Vec<S43<'d>>,
    #[serde(rename = "skip")]
    pub long_field_name_number_twelve: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    pub(crate) a: Vec<S124<'d>>,
    #[serde(rename = "skip")]
    pub layers: Vec<Parameter<'d>>,
    #[cfg_attr(all(), serde(skip))]
    /// #[parameter(skip)]
    pub(crate) r#type: S140<'d>,
    #[parameter(skip)]
    #[serde(skip)]
    pub(crate) skip: Option<Parameter<'d>>,
    #[cfg_attr(all(), serde(skip))]
    pub model: S147<'d, S95<'d>>,
}
impl<'d> Gen<'d> for S164<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S164 {
            field_updater: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            layers: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.params, skipped, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.skip, true, f);
        Gen::visit(&self.model, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S165<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    #[parameter(frozen, skip)]
    #[doc = "parameter(skip)"]
    x1: u32,
    pub k: Vec<Parameter<'d>>,
    #[parameter(skip, frozen)]
    pub(crate) self_: S159<'d, S153<'d>>,
    b: Vec<M>,
    #[parameter(skip)]
    pub marker: PhantomData<&'d ()>,
    pub inner: M,
    pub stats: Parameter<'d>,
    #[cfg(all())]
    /// #[parameter(skip)]
    pub _hidden: Vec<Vec<S106<'d>>>,
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) long_field_name_number_twelve: Box<S48<'d>>,
}
impl<'d, M: Model<'d>> Gen<'d> for S165<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S165 {
            x1: Gen::make(s, m, depth + 1),
            k: Gen::make(s, m, depth + 1),
            self_: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            stats: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.x1, true, f);
        Gen::visit(&self.k, skipped, f);
        Gen::visit(&self.self_, true, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.stats, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S166<'d, const N: usize> {
    pub(crate) parameters: Box<S104<'d>>,
    #[allow(unused, dead_code)]
    #[cfg(all())]
    pub(crate) _hidden: Vec<S116<'d, S25<'d, 3, S2<'d>>>>,
    #[cfg(all())]
    /// #[parameter(skip)]
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[parameter(skip)]
    pub(crate) arr: [u32; N],
}
impl<'d, const N: usize> Gen<'d> for S166<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S166 {
            parameters: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.arr, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S167<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[cfg(all())]
    #[doc = "parameter(skip)"]
    g_m: M,
    pub(crate) w: S98<'d>,
}
impl<'d, M: Model<'d>> Gen<'d> for S167<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S167 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            w: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.w, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S168<'d, M: Model<'d> = Vec<Parameter<'d>>> {
    #[parameter(skip,)]
    #[allow(unused, dead_code)]
    pub marker: PhantomData<&'d ()>,
    #[cfg(all())]
    #[allow(unused, dead_code)]
    g_m: M,
    #[allow(dead_code)]
    #[allow(unused, dead_code)]
    pub skip: S60<'d>,
    #[parameter(skip, frozen)]
    #[doc = "parameter(skip)"]
    /// #[parameter(skip)]
    pub(crate) bias: S7<'d>,
}
impl<'d, M: Model<'d>> Gen<'d> for S168<'d, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S168 {
            marker: Gen::make(s, m, depth + 1),
            g_m: Gen::make(s, m, depth + 1),
            skip: Gen::make(s, m, depth + 1),
            bias: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.g_m, skipped, f);
        Gen::visit(&self.skip, skipped, f);
        Gen::visit(&self.bias, true, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S169<'d> {
    pub(crate) layers: Vec<S122<'d, S82<'d, Vec<Parameter<'d>>>>>,
    #[allow(unused, dead_code)]
    pub r#type: Vec<S79<'d, 'static>>,
    /// #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    pub a: Vec<Parameter<'d>>,
    #[doc(hidden)]
    #[doc = "parameter(skip)"]
    pub(crate) inner: S112<'d>,
    #[cfg(all())]
    #[parameter(skip, frozen)]
    marker: PhantomData<&'d ()>,
    pub b: Vec<S68<'d, 1>>,
    #[parameter(skip, frozen)]
    pub(crate) parameter: Option<Parameter<'d>>,
    pub(crate) z9: Parameter<'d>,
    #[doc(hidden)]
    pub parameters: S110<'d, S12<'d>>,
}
impl<'d> Gen<'d> for S169<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S169 {
            layers: Gen::make(s, m, depth + 1),
            r#type: Gen::make(s, m, depth + 1),
            a: Gen::make(s, m, depth + 1),
            inner: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            b: Gen::make(s, m, depth + 1),
            parameter: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.layers, skipped, f);
        Gen::visit(&self.r#type, skipped, f);
        Gen::visit(&self.a, skipped, f);
        Gen::visit(&self.inner, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.b, skipped, f);
        Gen::visit(&self.parameter, true, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.parameters, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S170<'d, const N: usize, M: Model<'d>> {
    pub(crate) f0: Box<Parameter<'d>>,
    pub f9: Vec<Parameter<'d>>,
    #[doc = "parameter(skip)"]
    f8: Box<Parameter<'d>>,
    pub f13: Parameter<'d>,
    #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    #[allow(unused, dead_code)]
    marker: PhantomData<&'d ()>,
    pub(crate) f15: S156<'d, 2, S46<'d, 3>>,
    pub f5: Parameter<'d>,
    #[doc = "parameter(skip)"]
    f1: Parameter<'d>,
    #[allow(dead_code)]
    #[allow(unused, dead_code)]
    pub(crate) gradient: pu::Parameter<'d>,
    #[parameter()] #[parameter(skip)]
    f12: u32,
    #[doc = "parameter(skip)"]
    #[allow(dead_code)]
    f6: Alias<'d>,
    /// #[parameter(skip)]
    #[allow(dead_code)]
    #[parameter(skip)]
    f14: String,
    pub(crate) f3: Parameter<'d>,
    #[parameter(skip)]
    /// #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    pub arr: [u32; N],
    pub(crate) f4: Box<Parameter<'d>>,
    pub(crate) f10: Parameter<'d>,
    pub(crate) f7: M,
    pub(crate) f11: pu::Parameter<'d>,
    pub f2: Parameter<'d>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S170<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S170 {
            f0: Gen::make(s, m, depth + 1),
            f9: Gen::make(s, m, depth + 1),
            f8: Gen::make(s, m, depth + 1),
            f13: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            f15: Gen::make(s, m, depth + 1),
            f5: Gen::make(s, m, depth + 1),
            f1: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            f12: Gen::make(s, m, depth + 1),
            f6: Gen::make(s, m, depth + 1),
            f14: Gen::make(s, m, depth + 1),
            f3: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            f4: Gen::make(s, m, depth + 1),
            f10: Gen::make(s, m, depth + 1),
            f7: Gen::make(s, m, depth + 1),
            f11: Gen::make(s, m, depth + 1),
            f2: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.f0, skipped, f);
        Gen::visit(&self.f9, skipped, f);
        Gen::visit(&self.f8, skipped, f);
        Gen::visit(&self.f13, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.f15, skipped, f);
        Gen::visit(&self.f5, skipped, f);
        Gen::visit(&self.f1, skipped, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.f12, true, f);
        Gen::visit(&self.f6, skipped, f);
        Gen::visit(&self.f14, true, f);
        Gen::visit(&self.f3, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.f4, skipped, f);
        Gen::visit(&self.f10, skipped, f);
        Gen::visit(&self.f7, skipped, f);
        Gen::visit(&self.f11, skipped, f);
        Gen::visit(&self.f2, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S171<'d> {
    f5: Parameter<'d>,
    #[parameter()] #[parameter(skip)]
    f4: f32,
    f3: Parameter<'d>,
    pub(crate) f0: Parameter<'d>,
    pub f17: Parameter<'d>,
    #[parameter()] #[parameter(skip)]
    /// #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[parameter(skip)]
    pub(crate) f7: Vec<Parameter<'d>>,
    f15: Vec<S121<'d>>,
    f10: Alias<'d>,
    #[allow(dead_code)]
    #[cfg(all())]
    f9: Parameter<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) f11: Parameter<'d>,
    pub(crate) z9: Vec<Parameter<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    pub f2: Parameter<'d>,
    f14: pu::Parameter<'d>,
    pub(crate) f6: Parameter<'d>,
    pub f16: Parameter<'d>,
    #[doc = "parameter(skip)"]
    /// #[parameter(skip)]
    #[parameter(frozen, skip)]
    pub f8: S112<'d>,
    #[allow(unused, dead_code)]
    #[allow(dead_code)]
    pub f12: Box<Parameter<'d>>,
    /// documented
    #[allow(dead_code)]
    pub(crate) f18: Parameter<'d>,
    pub(crate) f1: Parameter<'d>,
    pub(crate) f13: Vec<Parameter<'d>>,
}
impl<'d> Gen<'d> for S171<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S171 {
            f5: Gen::make(s, m, depth + 1),
            f4: Gen::make(s, m, depth + 1),
            f3: Gen::make(s, m, depth + 1),
            f0: Gen::make(s, m, depth + 1),
            f17: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            f7: Gen::make(s, m, depth + 1),
            f15: Gen::make(s, m, depth + 1),
            f10: Gen::make(s, m, depth + 1),
            f9: Gen::make(s, m, depth + 1),
            f11: Gen::make(s, m, depth + 1),
            z9: Gen::make(s, m, depth + 1),
            f2: Gen::make(s, m, depth + 1),
            f14: Gen::make(s, m, depth + 1),
            f6: Gen::make(s, m, depth + 1),
            f16: Gen::make(s, m, depth + 1),
            f8: Gen::make(s, m, depth + 1),
            f12: Gen::make(s, m, depth + 1),
            f18: Gen::make(s, m, depth + 1),
            f1: Gen::make(s, m, depth + 1),
            f13: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.f5, skipped, f);
        Gen::visit(&self.f4, true, f);
        Gen::visit(&self.f3, skipped, f);
        Gen::visit(&self.f0, skipped, f);
        Gen::visit(&self.f17, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.f7, true, f);
        Gen::visit(&self.f15, skipped, f);
        Gen::visit(&self.f10, skipped, f);
        Gen::visit(&self.f9, skipped, f);
        Gen::visit(&self.f11, skipped, f);
        Gen::visit(&self.z9, skipped, f);
        Gen::visit(&self.f2, skipped, f);
        Gen::visit(&self.f14, skipped, f);
        Gen::visit(&self.f6, skipped, f);
        Gen::visit(&self.f16, skipped, f);
        Gen::visit(&self.f8, true, f);
        Gen::visit(&self.f12, skipped, f);
        Gen::visit(&self.f18, skipped, f);
        Gen::visit(&self.f1, skipped, f);
        Gen::visit(&self.f13, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S172<'d> {
    pub f14: Parameter<'d>,
    /// #[parameter(skip)]
    pub(crate) f12: Parameter<'d>,
    f1: Parameter<'d>,
    f5: Parameter<'d>,
    #[serde(rename = "skip")]
    pub(crate) f28: Parameter<'d>,
    #[cfg(all())]
    #[doc = "parameter(skip)"]
    f13: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    pub _hidden: pu::Parameter<'d>,
    #[doc(hidden)]
    #[serde(skip)]
    /// documented
    f23: Alias<'d>,
    /// #[parameter(skip)]
    #[doc = "parameter(skip)"]
    #[serde(skip_serializing)]
    pub gradient: Alias<'d>,
    #[doc(hidden)]
    #[allow(dead_code)]
    #[serde(skip_serializing)]
    f16: Box<Parameter<'d>>,
    #[cfg(all())]
    f4: Vec<Parameter<'d>>,
    f7: Parameter<'d>,
    #[parameter(frozen, skip)]
    #[serde(skip_serializing)]
    f24: Option<Parameter<'d>>,
    f19: Parameter<'d>,
    #[serde(skip)]
    #[parameter(skip)]
    pub(crate) f6: Vec<S144<'d, S49<'d, S31<'d>>>>,
    #[parameter(skip)]
    #[serde(skip_serializing)]
    f11: u32,
    #[allow(unused, dead_code)]
    #[parameter()] #[parameter(skip)]
    #[allow(dead_code)]
    pub marker: PhantomData<&'d ()>,
    pub(crate) f25: Parameter<'d>,
    #[serde(rename = "skip")]
    f17: Vec<Parameter<'d>>,
    #[serde(skip_serializing)]
    f2: pu::Parameter<'d>,
    pub f20: Vec<Parameter<'d>>,
    #[doc(hidden)]
    #[serde(skip_serializing)]
    #[cfg(all())]
    pub(crate) f29: pu::Parameter<'d>,
    pub(crate) f26: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    #[parameter(skip, frozen)]
    f9: HashMap<String, Parameter<'d>>,
    #[serde(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    f10: Vec<Parameter<'d>>,
    #[parameter(skip, frozen)]
    pub(crate) f22: String,
    #[parameter(skip,)]
    #[allow(dead_code)]
    pub(crate) f3: f32,
    #[cfg(all())]
    #[allow(unused, dead_code)]
    #[parameter(frozen, skip)]
    f0: u32,
    #[parameter(skip,)]
    #[cfg_attr(all(), allow(dead_code))]
    f18: String,
    f21: Parameter<'d>,
    #[allow(dead_code)]
    #[doc(hidden)]
    #[serde(skip_serializing)]
    pub(crate) f8: Alias<'d>,
    #[serde(skip)]
    #[parameter(skip)]
    long_field_name_number_twelve: Vec<S142<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    #[serde(skip_serializing)]
    #[allow(unused, dead_code)]
    pub(crate) f15: Box<Parameter<'d>>,
    pub(crate) f27: Vec<Parameter<'d>>,
}
impl<'d> Gen<'d> for S172<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S172 {
            f14: Gen::make(s, m, depth + 1),
            f12: Gen::make(s, m, depth + 1),
            f1: Gen::make(s, m, depth + 1),
            f5: Gen::make(s, m, depth + 1),
            f28: Gen::make(s, m, depth + 1),
            f13: Gen::make(s, m, depth + 1),
            _hidden: Gen::make(s, m, depth + 1),
            f23: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            f16: Gen::make(s, m, depth + 1),
            f4: Gen::make(s, m, depth + 1),
            f7: Gen::make(s, m, depth + 1),
            f24: Gen::make(s, m, depth + 1),
            f19: Gen::make(s, m, depth + 1),
            f6: Gen::make(s, m, depth + 1),
            f11: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            f25: Gen::make(s, m, depth + 1),
            f17: Gen::make(s, m, depth + 1),
            f2: Gen::make(s, m, depth + 1),
            f20: Gen::make(s, m, depth + 1),
            f29: Gen::make(s, m, depth + 1),
            f26: Gen::make(s, m, depth + 1),
            f9: Gen::make(s, m, depth + 1),
            f10: Gen::make(s, m, depth + 1),
            f22: Gen::make(s, m, depth + 1),
            f3: Gen::make(s, m, depth + 1),
            f0: Gen::make(s, m, depth + 1),
            f18: Gen::make(s, m, depth + 1),
            f21: Gen::make(s, m, depth + 1),
            f8: Gen::make(s, m, depth + 1),
            long_field_name_number_twelve: Gen::make(s, m, depth + 1),
            f15: Gen::make(s, m, depth + 1),
            f27: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.f14, skipped, f);
        Gen::visit(&self.f12, skipped, f);
        Gen::visit(&self.f1, skipped, f);
        Gen::visit(&self.f5, skipped, f);
        Gen::visit(&self.f28, skipped, f);
        Gen::visit(&self.f13, skipped, f);
        Gen::visit(&self._hidden, skipped, f);
        Gen::visit(&self.f23, skipped, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.f16, skipped, f);
        Gen::visit(&self.f4, skipped, f);
        Gen::visit(&self.f7, skipped, f);
        Gen::visit(&self.f24, true, f);
        Gen::visit(&self.f19, skipped, f);
        Gen::visit(&self.f6, true, f);
        Gen::visit(&self.f11, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.f25, skipped, f);
        Gen::visit(&self.f17, skipped, f);
        Gen::visit(&self.f2, skipped, f);
        Gen::visit(&self.f20, skipped, f);
        Gen::visit(&self.f29, skipped, f);
        Gen::visit(&self.f26, skipped, f);
        Gen::visit(&self.f9, true, f);
        Gen::visit(&self.f10, skipped, f);
        Gen::visit(&self.f22, true, f);
        Gen::visit(&self.f3, true, f);
        Gen::visit(&self.f0, true, f);
        Gen::visit(&self.f18, true, f);
        Gen::visit(&self.f21, skipped, f);
        Gen::visit(&self.f8, skipped, f);
        Gen::visit(&self.long_field_name_number_twelve, true, f);
        Gen::visit(&self.f15, skipped, f);
        Gen::visit(&self.f27, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S173<'d, const N: usize> {
    #[cfg(all())]
    pub(crate) f10: Vec<Parameter<'d>>,
    f33: pu::Parameter<'d>,
    f28: Alias<'d>,
    f34: Parameter<'d>,
    #[doc = "parameter(skip)"]
    /// #[parameter(skip)]
    pub f16: Parameter<'d>,
    #[allow(dead_code)]
    #[doc = "parameter(skip)"]
    f27: pu::Parameter<'d>,
    pub f32: Alias<'d>,
    /// documented
    #[doc(hidden)]
    f6: Alias<'d>,
    #[parameter(skip)]
    pub f12: Vec<S130<'d>>,
    #[cfg(all())]
    pub f13: Box<Parameter<'d>>,
    pub gradient: Alias<'d>,
    /// #[parameter(skip)]
    #[doc = "parameter(skip)"]
    f5: Parameter<'d>,
    f36: Vec<Vec<Parameter<'d>>>,
    f9: pu::Parameter<'d>,
    pub f25: pu::Parameter<'d>,
    #[allow(unused, dead_code)]
    /// documented
    f20: Vec<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) marker: PhantomData<&'d ()>,
    #[parameter(skip)]
    #[cfg(all())]
    #[doc(hidden)]
    f19: u32,
    #[parameter(skip)]
    arr: [u32; N],
    #[parameter()] #[parameter(skip)]
    f17: Vec<S64<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) f7: Vec<Parameter<'d>>,
    #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    f24: S89<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    #[allow(dead_code)]
    pub f29: Vec<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) f0: Vec<Parameter<'d>>,
    pub(crate) f2: Parameter<'d>,
    pub f4: Parameter<'d>,
    #[allow(unused, dead_code)]
    /// documented
    pub(crate) f22: Parameter<'d>,
    pub(crate) f35: pu::Parameter<'d>,
    #[cfg(all())]
    #[doc = "parameter(skip)"]
    pub(crate) f11: Parameter<'d>,
    #[parameter(skip, frozen)]
    pub f30: HashMap<String, Parameter<'d>>,
    pub(crate) r#move: Alias<'d>,
    pub(crate) f23: Vec<Vec<S138<'d>>>,
    pub f1: Parameter<'d>,
    #[parameter(skip,)]
    pub(crate) f14: Option<Parameter<'d>>,
    pub f15: Vec<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) model: String,
    f31: pu::Parameter<'d>,
    /// documented
    pub f26: Vec<Parameter<'d>>,
    #[doc(hidden)]
    /// #[parameter(skip)]
    pub(crate) f18: Parameter<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    f8: Parameter<'d>,
    f3: Vec<Vec<S159<'d, S153<'d>>>>,
    pub(crate) f21: Vec<S0<'d>>,
}
impl<'d, const N: usize> Gen<'d> for S173<'d, N> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S173 {
            f10: Gen::make(s, m, depth + 1),
            f33: Gen::make(s, m, depth + 1),
            f28: Gen::make(s, m, depth + 1),
            f34: Gen::make(s, m, depth + 1),
            f16: Gen::make(s, m, depth + 1),
            f27: Gen::make(s, m, depth + 1),
            f32: Gen::make(s, m, depth + 1),
            f6: Gen::make(s, m, depth + 1),
            f12: Gen::make(s, m, depth + 1),
            f13: Gen::make(s, m, depth + 1),
            gradient: Gen::make(s, m, depth + 1),
            f5: Gen::make(s, m, depth + 1),
            f36: Gen::make(s, m, depth + 1),
            f9: Gen::make(s, m, depth + 1),
            f25: Gen::make(s, m, depth + 1),
            f20: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            f19: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            f17: Gen::make(s, m, depth + 1),
            f7: Gen::make(s, m, depth + 1),
            f24: Gen::make(s, m, depth + 1),
            f29: Gen::make(s, m, depth + 1),
            f0: Gen::make(s, m, depth + 1),
            f2: Gen::make(s, m, depth + 1),
            f4: Gen::make(s, m, depth + 1),
            f22: Gen::make(s, m, depth + 1),
            f35: Gen::make(s, m, depth + 1),
            f11: Gen::make(s, m, depth + 1),
            f30: Gen::make(s, m, depth + 1),
            r#move: Gen::make(s, m, depth + 1),
            f23: Gen::make(s, m, depth + 1),
            f1: Gen::make(s, m, depth + 1),
            f14: Gen::make(s, m, depth + 1),
            f15: Gen::make(s, m, depth + 1),
            model: Gen::make(s, m, depth + 1),
            f31: Gen::make(s, m, depth + 1),
            f26: Gen::make(s, m, depth + 1),
            f18: Gen::make(s, m, depth + 1),
            f8: Gen::make(s, m, depth + 1),
            f3: Gen::make(s, m, depth + 1),
            f21: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.f10, skipped, f);
        Gen::visit(&self.f33, skipped, f);
        Gen::visit(&self.f28, skipped, f);
        Gen::visit(&self.f34, skipped, f);
        Gen::visit(&self.f16, skipped, f);
        Gen::visit(&self.f27, skipped, f);
        Gen::visit(&self.f32, skipped, f);
        Gen::visit(&self.f6, skipped, f);
        Gen::visit(&self.f12, true, f);
        Gen::visit(&self.f13, skipped, f);
        Gen::visit(&self.gradient, skipped, f);
        Gen::visit(&self.f5, skipped, f);
        Gen::visit(&self.f36, skipped, f);
        Gen::visit(&self.f9, skipped, f);
        Gen::visit(&self.f25, skipped, f);
        Gen::visit(&self.f20, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.f19, true, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.f17, true, f);
        Gen::visit(&self.f7, skipped, f);
        Gen::visit(&self.f24, true, f);
        Gen::visit(&self.f29, skipped, f);
        Gen::visit(&self.f0, true, f);
        Gen::visit(&self.f2, skipped, f);
        Gen::visit(&self.f4, skipped, f);
        Gen::visit(&self.f22, skipped, f);
        Gen::visit(&self.f35, skipped, f);
        Gen::visit(&self.f11, skipped, f);
        Gen::visit(&self.f30, true, f);
        Gen::visit(&self.r#move, skipped, f);
        Gen::visit(&self.f23, skipped, f);
        Gen::visit(&self.f1, skipped, f);
        Gen::visit(&self.f14, true, f);
        Gen::visit(&self.f15, skipped, f);
        Gen::visit(&self.model, true, f);
        Gen::visit(&self.f31, skipped, f);
        Gen::visit(&self.f26, skipped, f);
        Gen::visit(&self.f18, skipped, f);
        Gen::visit(&self.f8, skipped, f);
        Gen::visit(&self.f3, skipped, f);
        Gen::visit(&self.f21, skipped, f);
    }
}

#[derive(Serialize, Model)]
#[allow(dead_code)]
pub struct S174<'d, const N: usize, M: Model<'d>> {
    #[doc(hidden)]
    #[cfg(all())]
    #[serde(skip_serializing, rename = "parameter")]
    pub f52: Vec<Parameter<'d>>,
    #[serde(skip_serializing, rename = "parameter")]
    pub f13: Vec<Parameter<'d>>,
    #[serde(skip)]
    pub f57: Box<Parameter<'d>>,
    #[doc(hidden)]
    #[cfg_attr(all(), allow(dead_code))]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) f4: Parameter<'d>,
    #[cfg(all())]
    #[allow(dead_code)]
    pub f7: Parameter<'d>,
    #[allow(dead_code)]
    #[cfg_attr(all(), serde(skip))]
    /// #[parameter(skip)]
    pub(crate) f30: Box<Parameter<'d>>,
    #[serde(skip)]
    #[cfg(all())]
    pub f25: Parameter<'d>,
    pub f2: Vec<Parameter<'d>>,
    #[serde(skip_serializing)]
    pub f14: pu::Parameter<'d>,
    #[doc(hidden)]
    #[serde(skip_serializing)]
    #[cfg_attr(all(), allow(dead_code))]
    #[parameter(skip)]
    pub f49: S161<'d, 2>,
    #[parameter(skip,)]
    f35: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    /// documented
    #[doc(hidden)]
    pub f12: Alias<'d>,
    pub(crate) f44: Parameter<'d>,
    #[serde(skip)]
    pub(crate) field_updater: Parameter<'d>,
    #[parameter(skip, frozen)]
    #[doc(hidden)]
    #[cfg(all())]
    #[serde(skip)]
    f31: S119<'d>,
    #[cfg_attr(all(), serde(skip))]
    #[parameter(skip)]
    pub f19: u32,
    #[parameter(skip)]
    #[doc(hidden)]
    pub(crate) f36: Vec<Parameter<'d>>,
    #[allow(dead_code)]
    #[serde(skip)]
    pub f38: pu::Parameter<'d>,
    #[parameter(frozen, skip)]
    #[serde(skip_serializing)]
    f45: HashMap<String, Parameter<'d>>,
    pub(crate) f20: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    f21: pu::Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    pub(crate) f51: M,
    /// documented
    #[allow(dead_code)]
    #[serde(skip)]
    f17: Box<Parameter<'d>>,
    pub f40: Vec<Parameter<'d>>,
    /// #[parameter(skip)]
    #[cfg(all())]
    pub(crate) f48: Parameter<'d>,
    #[doc = "parameter(skip)"]
    #[cfg_attr(all(), allow(dead_code))]
    #[serde(skip_serializing)]
    pub(crate) f60: Alias<'d>,
    #[serde(skip)]
    pub f55: Box<Parameter<'d>>,
    #[cfg_attr(all(), serde(skip))]
    #[cfg(all())]
    pub(crate) f56: pu::Parameter<'d>,
    pub(crate) f26: Parameter<'d>,
    /// documented
    #[parameter(skip,)]
    #[allow(unused, dead_code)]
    f33: f32,
    /// #[parameter(skip)]
    #[serde(skip)]
    pub(crate) parameters: Box<Parameter<'d>>,
    #[serde(rename = "skip")]
    pub f10: Parameter<'d>,
    #[serde(skip_serializing, rename = "parameter")]
    pub f29: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    pub f42: pu::Parameter<'d>,
    pub f34: Parameter<'d>,
    #[parameter(skip, frozen)]
    pub f22: Parameter<'d>,
    #[serde(skip_serializing)]
    pub f41: Vec<M>,
    f15: Parameter<'d>,
    #[serde(skip)]
    /// #[parameter(skip)]
    #[allow(unused, dead_code)]
    pub f43: Alias<'d>,
    #[allow(unused, dead_code)]
    #[allow(dead_code)]
    #[serde(skip_serializing)]
    pub f46: S26<'d>,
    #[cfg_attr(all(), serde(skip))]
    pub f59: Box<Parameter<'d>>,
    #[doc = "parameter(skip)"]
    #[parameter()] #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) f50: S78<'d, Vec<Parameter<'d>>>,
    #[serde(skip)]
    #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    pub f5: Option<Parameter<'d>>,
    #[cfg_attr(all(), serde(skip))]
    f16: pu::Parameter<'d>,
    #[serde(skip)]
    pub(crate) f1: Box<Parameter<'d>>,
    #[cfg(all())]
    #[allow(unused, dead_code)]
    pub f23: Parameter<'d>,
    #[cfg_attr(all(), serde(skip))]
    f6: Parameter<'d>,
    #[parameter(frozen, skip)]
    #[serde(skip)]
    params: HashMap<String, Parameter<'d>>,
    #[serde(rename = "skip")]
    #[parameter(skip)]
    marker: PhantomData<&'d ()>,
    #[doc(hidden)]
    #[doc = "parameter(skip)"]
    pub(crate) f9: Parameter<'d>,
    #[cfg(all())]
    #[parameter(skip)]
    #[doc(hidden)]
    #[cfg_attr(all(), serde(skip))]
    f28: u32,
    #[serde(skip_serializing, rename = "parameter")]
    #[parameter(skip)]
    f62: f32,
    #[serde(skip)]
    f54: Parameter<'d>,
    #[parameter()] #[parameter(skip)]
    #[serde(skip)]
    #[allow(unused, dead_code)]
    #[cfg(all())]
    f11: S66<'d, 0, S13<'d>>,
    #[cfg_attr(all(), serde(skip))]
    #[parameter(skip)]
    pub f47: Option<Parameter<'d>>,
    #[serde(skip_serializing)]
    pub f37: S46<'d, 3>,
    #[cfg(all())]
    #[parameter(skip)]
    #[cfg_attr(all(), serde(skip))]
    f32: Parameter<'d>,
    pub(crate) f18: Parameter<'d>,
    #[parameter(skip, frozen)]
    #[cfg_attr(all(), serde(skip))]
    pub(crate) f0: S39<'d, Vec<Parameter<'d>>>,
    f58: Parameter<'d>,
    #[doc(hidden)]
    pub(crate) f8: Vec<Parameter<'d>>,
    #[serde(skip)]
    #[parameter(skip,)]
    pub arr: [u32; N],
    /// #[parameter(skip)]
    #[serde(skip_serializing)]
    #[cfg(all())]
    pub(crate) f39: Parameter<'d>,
    #[serde(skip)]
    pub(crate) f3: M,
    f27: Parameter<'d>,
    pub(crate) f61: Parameter<'d>,
    #[parameter(skip)]
    f53: f32,
    #[serde(skip_serializing)]
    f24: pu::Parameter<'d>,
}
impl<'d, const N: usize, M: Model<'d>> Gen<'d> for S174<'d, N, M> where M: Gen<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S174 {
            f52: Gen::make(s, m, depth + 1),
            f13: Gen::make(s, m, depth + 1),
            f57: Gen::make(s, m, depth + 1),
            f4: Gen::make(s, m, depth + 1),
            f7: Gen::make(s, m, depth + 1),
            f30: Gen::make(s, m, depth + 1),
            f25: Gen::make(s, m, depth + 1),
            f2: Gen::make(s, m, depth + 1),
            f14: Gen::make(s, m, depth + 1),
            f49: Gen::make(s, m, depth + 1),
            f35: Gen::make(s, m, depth + 1),
            f12: Gen::make(s, m, depth + 1),
            f44: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            f31: Gen::make(s, m, depth + 1),
            f19: Gen::make(s, m, depth + 1),
            f36: Gen::make(s, m, depth + 1),
            f38: Gen::make(s, m, depth + 1),
            f45: Gen::make(s, m, depth + 1),
            f20: Gen::make(s, m, depth + 1),
            f21: Gen::make(s, m, depth + 1),
            f51: Gen::make(s, m, depth + 1),
            f17: Gen::make(s, m, depth + 1),
            f40: Gen::make(s, m, depth + 1),
            f48: Gen::make(s, m, depth + 1),
            f60: Gen::make(s, m, depth + 1),
            f55: Gen::make(s, m, depth + 1),
            f56: Gen::make(s, m, depth + 1),
            f26: Gen::make(s, m, depth + 1),
            f33: Gen::make(s, m, depth + 1),
            parameters: Gen::make(s, m, depth + 1),
            f10: Gen::make(s, m, depth + 1),
            f29: Gen::make(s, m, depth + 1),
            f42: Gen::make(s, m, depth + 1),
            f34: Gen::make(s, m, depth + 1),
            f22: Gen::make(s, m, depth + 1),
            f41: Gen::make(s, m, depth + 1),
            f15: Gen::make(s, m, depth + 1),
            f43: Gen::make(s, m, depth + 1),
            f46: Gen::make(s, m, depth + 1),
            f59: Gen::make(s, m, depth + 1),
            f50: Gen::make(s, m, depth + 1),
            f5: Gen::make(s, m, depth + 1),
            f16: Gen::make(s, m, depth + 1),
            f1: Gen::make(s, m, depth + 1),
            f23: Gen::make(s, m, depth + 1),
            f6: Gen::make(s, m, depth + 1),
            params: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            f9: Gen::make(s, m, depth + 1),
            f28: Gen::make(s, m, depth + 1),
            f62: Gen::make(s, m, depth + 1),
            f54: Gen::make(s, m, depth + 1),
            f11: Gen::make(s, m, depth + 1),
            f47: Gen::make(s, m, depth + 1),
            f37: Gen::make(s, m, depth + 1),
            f32: Gen::make(s, m, depth + 1),
            f18: Gen::make(s, m, depth + 1),
            f0: Gen::make(s, m, depth + 1),
            f58: Gen::make(s, m, depth + 1),
            f8: Gen::make(s, m, depth + 1),
            arr: Gen::make(s, m, depth + 1),
            f39: Gen::make(s, m, depth + 1),
            f3: Gen::make(s, m, depth + 1),
            f27: Gen::make(s, m, depth + 1),
            f61: Gen::make(s, m, depth + 1),
            f53: Gen::make(s, m, depth + 1),
            f24: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.f52, skipped, f);
        Gen::visit(&self.f13, skipped, f);
        Gen::visit(&self.f57, skipped, f);
        Gen::visit(&self.f4, skipped, f);
        Gen::visit(&self.f7, skipped, f);
        Gen::visit(&self.f30, skipped, f);
        Gen::visit(&self.f25, skipped, f);
        Gen::visit(&self.f2, skipped, f);
        Gen::visit(&self.f14, skipped, f);
        Gen::visit(&self.f49, true, f);
        Gen::visit(&self.f35, true, f);
        Gen::visit(&self.f12, skipped, f);
        Gen::visit(&self.f44, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.f31, true, f);
        Gen::visit(&self.f19, true, f);
        Gen::visit(&self.f36, true, f);
        Gen::visit(&self.f38, skipped, f);
        Gen::visit(&self.f45, true, f);
        Gen::visit(&self.f20, skipped, f);
        Gen::visit(&self.f21, skipped, f);
        Gen::visit(&self.f51, skipped, f);
        Gen::visit(&self.f17, skipped, f);
        Gen::visit(&self.f40, skipped, f);
        Gen::visit(&self.f48, skipped, f);
        Gen::visit(&self.f60, skipped, f);
        Gen::visit(&self.f55, skipped, f);
        Gen::visit(&self.f56, skipped, f);
        Gen::visit(&self.f26, skipped, f);
        Gen::visit(&self.f33, true, f);
        Gen::visit(&self.parameters, skipped, f);
        Gen::visit(&self.f10, skipped, f);
        Gen::visit(&self.f29, skipped, f);
        Gen::visit(&self.f42, skipped, f);
        Gen::visit(&self.f34, skipped, f);
        Gen::visit(&self.f22, true, f);
        Gen::visit(&self.f41, skipped, f);
        Gen::visit(&self.f15, skipped, f);
        Gen::visit(&self.f43, skipped, f);
        Gen::visit(&self.f46, skipped, f);
        Gen::visit(&self.f59, skipped, f);
        Gen::visit(&self.f50, true, f);
        Gen::visit(&self.f5, true, f);
        Gen::visit(&self.f16, skipped, f);
        Gen::visit(&self.f1, skipped, f);
        Gen::visit(&self.f23, skipped, f);
        Gen::visit(&self.f6, skipped, f);
        Gen::visit(&self.params, true, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.f9, skipped, f);
        Gen::visit(&self.f28, true, f);
        Gen::visit(&self.f62, true, f);
        Gen::visit(&self.f54, skipped, f);
        Gen::visit(&self.f11, true, f);
        Gen::visit(&self.f47, true, f);
        Gen::visit(&self.f37, skipped, f);
        Gen::visit(&self.f32, true, f);
        Gen::visit(&self.f18, skipped, f);
        Gen::visit(&self.f0, true, f);
        Gen::visit(&self.f58, skipped, f);
        Gen::visit(&self.f8, skipped, f);
        Gen::visit(&self.arr, true, f);
        Gen::visit(&self.f39, skipped, f);
        Gen::visit(&self.f3, skipped, f);
        Gen::visit(&self.f27, skipped, f);
        Gen::visit(&self.f61, skipped, f);
        Gen::visit(&self.f53, true, f);
        Gen::visit(&self.f24, skipped, f);
    }
}

#[derive(Model)]
#[allow(dead_code)]
pub struct S175<'d> {
    #[doc = "parameter(skip)"]
    f18: Parameter<'d>,
    f118: Parameter<'d>,
    /// documented
    pub(crate) f58: pu::Parameter<'d>,
    #[allow(dead_code)]
    #[doc(hidden)]
    pub(crate) f114: Parameter<'d>,
    /// documented
    pub(crate) f63: Parameter<'d>,
    #[parameter(frozen, skip)]
    f59: u32,
    f7: Alias<'d>,
    pub f91: Parameter<'d>,
    #[parameter(skip)]
    /// #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) f16: f32,
    #[parameter(skip, frozen)]
    f71: f32,
    #[allow(dead_code)]
    #[doc = "parameter(skip)"]
    f98: Vec<Parameter<'d>>,
    f25: Box<Parameter<'d>>,
    f47: Box<Parameter<'d>>,
    #[parameter(skip, frozen)]
    #[allow(dead_code)]
    pub(crate) f108: Vec<S87<'d, 1, S75<'d, S8<'d, S3<'d>>>>>,
    #[parameter(frozen, skip)]
    pub(crate) f121: String,
    #[parameter(frozen, skip)]
    pub(crate) f32: Vec<S72<'d, S17<'d>>>,
    pub f27: Parameter<'d>,
    pub f3: Parameter<'d>,
    #[allow(unused, dead_code)]
    pub(crate) f65: Parameter<'d>,
    /// #[parameter(skip)]
    #[parameter(skip)]
    #[doc(hidden)]
    pub f128: Option<Parameter<'d>>,
    #[parameter(skip)]
    pub(crate) f33: String,
    #[doc(hidden)]
    pub(crate) f83: Parameter<'d>,
    pub(crate) f113: pu::Parameter<'d>,
    f42: Parameter<'d>,
    pub f37: Parameter<'d>,
    #[allow(unused, dead_code)]
    pub(crate) f67: Vec<Parameter<'d>>,
    /// documented
    #[doc(hidden)]
    pub(crate) f76: Parameter<'d>,
    pub(crate) f8: pu::Parameter<'d>,
    /// #[parameter(skip)]
    pub f77: Parameter<'d>,
    #[parameter(frozen, skip)]
    f81: Option<Parameter<'d>>,
    f54: Vec<Parameter<'d>>,
    #[parameter(skip, frozen)]
    f106: S101<'d, Vec<Parameter<'d>>>,
    #[doc = "parameter(skip)"]
    #[allow(unused, dead_code)]
    f85: Box<Parameter<'d>>,
    #[parameter(skip, frozen)]
    pub(crate) f19: String,
    pub(crate) f111: pu::Parameter<'d>,
    #[cfg(all())]
    #[allow(dead_code)]
    pub f68: Vec<S61<'d, 'static>>,
    pub(crate) f55: Parameter<'d>,
    #[parameter(skip)]
    #[allow(unused, dead_code)]
    /// documented
    f28: Parameter<'d>,
    f14: pu::Parameter<'d>,
    /// #[parameter(skip)]
    #[allow(unused, dead_code)]
    f72: Vec<Parameter<'d>>,
    pub f0: Vec<Vec<S91<'d, 4, S56<'d>>>>,
    pub(crate) f13: Alias<'d>,
    pub(crate) f53: Box<Parameter<'d>>,
    pub(crate) f52: Box<Parameter<'d>>,
    pub f74: pu::Parameter<'d>,
    #[doc(hidden)]
    #[cfg_attr(all(), allow(dead_code))]
    pub f92: Box<Parameter<'d>>,
    pub(crate) f89: Parameter<'d>,
    #[parameter(skip, frozen)]
    f90: S61<'d, 'static>,
    #[parameter(skip)]
    pub f62: u32,
    #[doc(hidden)]
    #[allow(dead_code)]
    pub f112: Parameter<'d>,
    #[allow(unused, dead_code)]
    #[cfg_attr(all(), allow(dead_code))]
    f123: Parameter<'d>,
    pub f23: Vec<Parameter<'d>>,
    f12: Parameter<'d>,
    /// #[parameter(skip)]
    pub(crate) f120: Alias<'d>,
    pub(crate) f31: Parameter<'d>,
    pub f45: pu::Parameter<'d>,
    pub f87: Vec<Vec<Parameter<'d>>>,
    #[doc(hidden)]
    #[allow(unused, dead_code)]
    f39: pu::Parameter<'d>,
    #[parameter(skip, frozen)]
    #[cfg(all())]
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) f75: Vec<Parameter<'d>>,
    #[allow(dead_code)]
    #[allow(unused, dead_code)]
    f11: Parameter<'d>,
    f103: pu::Parameter<'d>,
    #[allow(dead_code)]
    pub(crate) f64: Parameter<'d>,
    f22: Parameter<'d>,
    pub f115: Parameter<'d>,
    pub f51: Vec<S21<'d, 3>>,
    pub f5: Parameter<'d>,
    f43: Alias<'d>,
    pub(crate) field_updater: Box<Parameter<'d>>,
    pub(crate) f46: Parameter<'d>,
    #[parameter(skip, frozen)]
    f127: Vec<Parameter<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    pub(crate) f105: Parameter<'d>,
    #[parameter(skip, frozen)]
    f24: S126<'d, 1>,
    #[cfg(all())]
    f116: Alias<'d>,
    f34: Alias<'d>,
    #[parameter(skip)]
    pub f101: Vec<Parameter<'d>>,
    #[allow(dead_code)]
    #[allow(unused, dead_code)]
    #[parameter(skip)]
    pub f104: String,
    pub(crate) f60: Parameter<'d>,
    pub f6: Vec<Parameter<'d>>,
    #[cfg_attr(all(), allow(dead_code))]
    #[allow(unused, dead_code)]
    pub f57: Parameter<'d>,
    pub f102: Parameter<'d>,
    #[doc(hidden)]
    /// documented
    f93: Box<Parameter<'d>>,
    pub(crate) f61: Parameter<'d>,
    #[allow(dead_code)]
    #[parameter()] #[parameter(skip)]
    #[doc = "parameter(skip)"]
    pub f80: S133<'d, 'static>,
    #[allow(dead_code)]
    #[allow(unused, dead_code)]
    pub f2: Alias<'d>,
    pub(crate) f4: Vec<Parameter<'d>>,
    f109: Vec<Parameter<'d>>,
    #[parameter(skip)]
    f99: f32,
    pub(crate) f10: Alias<'d>,
    #[cfg(all())]
    pub f82: Box<Parameter<'d>>,
    /// #[parameter(skip)]
    #[parameter(skip)]
    #[doc = "parameter(skip)"]
    f78: S161<'d, 2>,
    pub f40: Parameter<'d>,
    /// documented
    /// #[parameter(skip)]
    f124: Parameter<'d>,
    f66: Parameter<'d>,
    #[cfg(all())]
    #[parameter(skip)]
    f125: Parameter<'d>,
    pub f126: pu::Parameter<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    #[cfg(all())]
    pub f79: S170<'d, 3, S156<'d, 2, S46<'d, 3>>>,
    #[parameter(skip, frozen)]
    pub f20: String,
    #[parameter(skip, frozen)]
    f1: Option<Parameter<'d>>,
    pub(crate) f73: Parameter<'d>,
    pub(crate) f100: Parameter<'d>,
    #[parameter(skip)]
    pub(crate) f107: f32,
    #[parameter(frozen, skip)]
    pub f97: Option<Parameter<'d>>,
    f38: Parameter<'d>,
    #[parameter(skip)]
    #[cfg_attr(all(), allow(dead_code))]
    /// #[parameter(skip)]
    pub(crate) f84: S130<'d>,
    f117: Parameter<'d>,
    pub(crate) f95: Parameter<'d>,
    #[parameter()] #[parameter(skip)]
    f21: HashMap<String, Parameter<'d>>,
    f88: Parameter<'d>,
    #[cfg_attr(all(), allow(dead_code))]
    #[cfg(all())]
    #[parameter(skip, frozen)]
    pub(crate) f26: Vec<Parameter<'d>>,
    #[allow(dead_code)]
    pub(crate) f94: Alias<'d>,
    #[cfg(all())]
    pub(crate) f122: S130<'d>,
    f15: Parameter<'d>,
    pub f69: Parameter<'d>,
    pub(crate) f96: Vec<Parameter<'d>>,
    #[parameter(skip)]
    #[doc(hidden)]
    pub marker: PhantomData<&'d ()>,
    pub(crate) f44: Alias<'d>,
    #[parameter(skip, frozen)]
    pub(crate) f17: S115<'d, 0>,
    #[allow(dead_code)]
    pub(crate) f9: Parameter<'d>,
    #[allow(unused, dead_code)]
    pub f48: Parameter<'d>,
    #[allow(dead_code)]
    /// documented
    pub(crate) f86: Parameter<'d>,
    pub(crate) f29: Parameter<'d>,
    #[allow(dead_code)]
    pub f119: Parameter<'d>,
    #[parameter(skip)]
    #[doc = "parameter(skip)"]
    pub(crate) f36: u32,
    #[parameter()] #[parameter(skip)]
    pub(crate) f41: S138<'d>,
    /// #[parameter(skip)]
    f50: Parameter<'d>,
    pub f30: Parameter<'d>,
    #[parameter(skip)]
    pub(crate) f49: S72<'d, S17<'d>>,
    #[parameter(skip, frozen)]
    f56: S69<'d>,
    #[parameter(skip)]
    pub f70: f32,
    #[parameter(skip, frozen)]
    f110: String,
    #[doc = "parameter(skip)"]
    #[cfg(all())]
    pub(crate) f35: Parameter<'d>,
}
impl<'d> Gen<'d> for S175<'d> {
    fn make(s: &mut Src, m: &mut Maker, depth: u32) -> Self {
        S175 {
            f18: Gen::make(s, m, depth + 1),
            f118: Gen::make(s, m, depth + 1),
            f58: Gen::make(s, m, depth + 1),
            f114: Gen::make(s, m, depth + 1),
            f63: Gen::make(s, m, depth + 1),
            f59: Gen::make(s, m, depth + 1),
            f7: Gen::make(s, m, depth + 1),
            f91: Gen::make(s, m, depth + 1),
            f16: Gen::make(s, m, depth + 1),
            f71: Gen::make(s, m, depth + 1),
            f98: Gen::make(s, m, depth + 1),
            f25: Gen::make(s, m, depth + 1),
            f47: Gen::make(s, m, depth + 1),
            f108: Gen::make(s, m, depth + 1),
            f121: Gen::make(s, m, depth + 1),
            f32: Gen::make(s, m, depth + 1),
            f27: Gen::make(s, m, depth + 1),
            f3: Gen::make(s, m, depth + 1),
            f65: Gen::make(s, m, depth + 1),
            f128: Gen::make(s, m, depth + 1),
            f33: Gen::make(s, m, depth + 1),
            f83: Gen::make(s, m, depth + 1),
            f113: Gen::make(s, m, depth + 1),
            f42: Gen::make(s, m, depth + 1),
            f37: Gen::make(s, m, depth + 1),
            f67: Gen::make(s, m, depth + 1),
            f76: Gen::make(s, m, depth + 1),
            f8: Gen::make(s, m, depth + 1),
            f77: Gen::make(s, m, depth + 1),
            f81: Gen::make(s, m, depth + 1),
            f54: Gen::make(s, m, depth + 1),
            f106: Gen::make(s, m, depth + 1),
            f85: Gen::make(s, m, depth + 1),
            f19: Gen::make(s, m, depth + 1),
            f111: Gen::make(s, m, depth + 1),
            f68: Gen::make(s, m, depth + 1),
            f55: Gen::make(s, m, depth + 1),
            f28: Gen::make(s, m, depth + 1),
            f14: Gen::make(s, m, depth + 1),
            f72: Gen::make(s, m, depth + 1),
            f0: Gen::make(s, m, depth + 1),
            f13: Gen::make(s, m, depth + 1),
            f53: Gen::make(s, m, depth + 1),
            f52: Gen::make(s, m, depth + 1),
            f74: Gen::make(s, m, depth + 1),
            f92: Gen::make(s, m, depth + 1),
            f89: Gen::make(s, m, depth + 1),
            f90: Gen::make(s, m, depth + 1),
            f62: Gen::make(s, m, depth + 1),
            f112: Gen::make(s, m, depth + 1),
            f123: Gen::make(s, m, depth + 1),
            f23: Gen::make(s, m, depth + 1),
            f12: Gen::make(s, m, depth + 1),
            f120: Gen::make(s, m, depth + 1),
            f31: Gen::make(s, m, depth + 1),
            f45: Gen::make(s, m, depth + 1),
            f87: Gen::make(s, m, depth + 1),
            f39: Gen::make(s, m, depth + 1),
            f75: Gen::make(s, m, depth + 1),
            f11: Gen::make(s, m, depth + 1),
            f103: Gen::make(s, m, depth + 1),
            f64: Gen::make(s, m, depth + 1),
            f22: Gen::make(s, m, depth + 1),
            f115: Gen::make(s, m, depth + 1),
            f51: Gen::make(s, m, depth + 1),
            f5: Gen::make(s, m, depth + 1),
            f43: Gen::make(s, m, depth + 1),
            field_updater: Gen::make(s, m, depth + 1),
            f46: Gen::make(s, m, depth + 1),
            f127: Gen::make(s, m, depth + 1),
            f105: Gen::make(s, m, depth + 1),
            f24: Gen::make(s, m, depth + 1),
            f116: Gen::make(s, m, depth + 1),
            f34: Gen::make(s, m, depth + 1),
            f101: Gen::make(s, m, depth + 1),
            f104: Gen::make(s, m, depth + 1),
            f60: Gen::make(s, m, depth + 1),
            f6: Gen::make(s, m, depth + 1),
            f57: Gen::make(s, m, depth + 1),
            f102: Gen::make(s, m, depth + 1),
            f93: Gen::make(s, m, depth + 1),
            f61: Gen::make(s, m, depth + 1),
            f80: Gen::make(s, m, depth + 1),
            f2: Gen::make(s, m, depth + 1),
            f4: Gen::make(s, m, depth + 1),
            f109: Gen::make(s, m, depth + 1),
            f99: Gen::make(s, m, depth + 1),
            f10: Gen::make(s, m, depth + 1),
            f82: Gen::make(s, m, depth + 1),
            f78: Gen::make(s, m, depth + 1),
            f40: Gen::make(s, m, depth + 1),
            f124: Gen::make(s, m, depth + 1),
            f66: Gen::make(s, m, depth + 1),
            f125: Gen::make(s, m, depth + 1),
            f126: Gen::make(s, m, depth + 1),
            f79: Gen::make(s, m, depth + 1),
            f20: Gen::make(s, m, depth + 1),
            f1: Gen::make(s, m, depth + 1),
            f73: Gen::make(s, m, depth + 1),
            f100: Gen::make(s, m, depth + 1),
            f107: Gen::make(s, m, depth + 1),
            f97: Gen::make(s, m, depth + 1),
            f38: Gen::make(s, m, depth + 1),
            f84: Gen::make(s, m, depth + 1),
            f117: Gen::make(s, m, depth + 1),
            f95: Gen::make(s, m, depth + 1),
            f21: Gen::make(s, m, depth + 1),
            f88: Gen::make(s, m, depth + 1),
            f26: Gen::make(s, m, depth + 1),
            f94: Gen::make(s, m, depth + 1),
            f122: Gen::make(s, m, depth + 1),
            f15: Gen::make(s, m, depth + 1),
            f69: Gen::make(s, m, depth + 1),
            f96: Gen::make(s, m, depth + 1),
            marker: Gen::make(s, m, depth + 1),
            f44: Gen::make(s, m, depth + 1),
            f17: Gen::make(s, m, depth + 1),
            f9: Gen::make(s, m, depth + 1),
            f48: Gen::make(s, m, depth + 1),
            f86: Gen::make(s, m, depth + 1),
            f29: Gen::make(s, m, depth + 1),
            f119: Gen::make(s, m, depth + 1),
            f36: Gen::make(s, m, depth + 1),
            f41: Gen::make(s, m, depth + 1),
            f50: Gen::make(s, m, depth + 1),
            f30: Gen::make(s, m, depth + 1),
            f49: Gen::make(s, m, depth + 1),
            f56: Gen::make(s, m, depth + 1),
            f70: Gen::make(s, m, depth + 1),
            f110: Gen::make(s, m, depth + 1),
            f35: Gen::make(s, m, depth + 1),
        }
    }
    fn visit<'a>(&'a self, skipped: bool, f: &mut dyn FnMut(&'a Parameter<'d>, bool)) {
        let _ = (&f, skipped);
        Gen::visit(&self.f18, skipped, f);
        Gen::visit(&self.f118, skipped, f);
        Gen::visit(&self.f58, skipped, f);
        Gen::visit(&self.f114, skipped, f);
        Gen::visit(&self.f63, skipped, f);
        Gen::visit(&self.f59, true, f);
        Gen::visit(&self.f7, skipped, f);
        Gen::visit(&self.f91, skipped, f);
        Gen::visit(&self.f16, true, f);
        Gen::visit(&self.f71, true, f);
        Gen::visit(&self.f98, skipped, f);
        Gen::visit(&self.f25, skipped, f);
        Gen::visit(&self.f47, skipped, f);
        Gen::visit(&self.f108, true, f);
        Gen::visit(&self.f121, true, f);
        Gen::visit(&self.f32, true, f);
        Gen::visit(&self.f27, skipped, f);
        Gen::visit(&self.f3, skipped, f);
        Gen::visit(&self.f65, skipped, f);
        Gen::visit(&self.f128, true, f);
        Gen::visit(&self.f33, true, f);
        Gen::visit(&self.f83, skipped, f);
        Gen::visit(&self.f113, skipped, f);
        Gen::visit(&self.f42, skipped, f);
        Gen::visit(&self.f37, skipped, f);
        Gen::visit(&self.f67, skipped, f);
        Gen::visit(&self.f76, skipped, f);
        Gen::visit(&self.f8, skipped, f);
        Gen::visit(&self.f77, skipped, f);
        Gen::visit(&self.f81, true, f);
        Gen::visit(&self.f54, skipped, f);
        Gen::visit(&self.f106, true, f);
        Gen::visit(&self.f85, skipped, f);
        Gen::visit(&self.f19, true, f);
        Gen::visit(&self.f111, skipped, f);
        Gen::visit(&self.f68, skipped, f);
        Gen::visit(&self.f55, skipped, f);
        Gen::visit(&self.f28, true, f);
        Gen::visit(&self.f14, skipped, f);
        Gen::visit(&self.f72, skipped, f);
        Gen::visit(&self.f0, skipped, f);
        Gen::visit(&self.f13, skipped, f);
        Gen::visit(&self.f53, skipped, f);
        Gen::visit(&self.f52, skipped, f);
        Gen::visit(&self.f74, skipped, f);
        Gen::visit(&self.f92, skipped, f);
        Gen::visit(&self.f89, skipped, f);
        Gen::visit(&self.f90, true, f);
        Gen::visit(&self.f62, true, f);
        Gen::visit(&self.f112, skipped, f);
        Gen::visit(&self.f123, skipped, f);
        Gen::visit(&self.f23, skipped, f);
        Gen::visit(&self.f12, skipped, f);
        Gen::visit(&self.f120, skipped, f);
        Gen::visit(&self.f31, skipped, f);
        Gen::visit(&self.f45, skipped, f);
        Gen::visit(&self.f87, skipped, f);
        Gen::visit(&self.f39, skipped, f);
        Gen::visit(&self.f75, true, f);
        Gen::visit(&self.f11, skipped, f);
        Gen::visit(&self.f103, skipped, f);
        Gen::visit(&self.f64, skipped, f);
        Gen::visit(&self.f22, skipped, f);
        Gen::visit(&self.f115, skipped, f);
        Gen::visit(&self.f51, skipped, f);
        Gen::visit(&self.f5, skipped, f);
        Gen::visit(&self.f43, skipped, f);
        Gen::visit(&self.field_updater, skipped, f);
        Gen::visit(&self.f46, skipped, f);
        Gen::visit(&self.f127, true, f);
        Gen::visit(&self.f105, skipped, f);
        Gen::visit(&self.f24, true, f);
        Gen::visit(&self.f116, skipped, f);
        Gen::visit(&self.f34, skipped, f);
        Gen::visit(&self.f101, true, f);
        Gen::visit(&self.f104, true, f);
        Gen::visit(&self.f60, skipped, f);
        Gen::visit(&self.f6, skipped, f);
        Gen::visit(&self.f57, skipped, f);
        Gen::visit(&self.f102, skipped, f);
        Gen::visit(&self.f93, skipped, f);
        Gen::visit(&self.f61, skipped, f);
        Gen::visit(&self.f80, true, f);
        Gen::visit(&self.f2, skipped, f);
        Gen::visit(&self.f4, skipped, f);
        Gen::visit(&self.f109, skipped, f);
        Gen::visit(&self.f99, true, f);
        Gen::visit(&self.f10, skipped, f);
        Gen::visit(&self.f82, skipped, f);
        Gen::visit(&self.f78, true, f);
        Gen::visit(&self.f40, skipped, f);
        Gen::visit(&self.f124, skipped, f);
        Gen::visit(&self.f66, skipped, f);
        Gen::visit(&self.f125, true, f);
        Gen::visit(&self.f126, skipped, f);
        Gen::visit(&self.f79, skipped, f);
        Gen::visit(&self.f20, true, f);
        Gen::visit(&self.f1, true, f);
        Gen::visit(&self.f73, skipped, f);
        Gen::visit(&self.f100, skipped, f);
        Gen::visit(&self.f107, true, f);
        Gen::visit(&self.f97, true, f);
        Gen::visit(&self.f38, skipped, f);
        Gen::visit(&self.f84, true, f);
        Gen::visit(&self.f117, skipped, f);
        Gen::visit(&self.f95, skipped, f);
        Gen::visit(&self.f21, true, f);
        Gen::visit(&self.f88, skipped, f);
        Gen::visit(&self.f26, true, f);
        Gen::visit(&self.f94, skipped, f);
        Gen::visit(&self.f122, skipped, f);
        Gen::visit(&self.f15, skipped, f);
        Gen::visit(&self.f69, skipped, f);
        Gen::visit(&self.f96, skipped, f);
        Gen::visit(&self.marker, true, f);
        Gen::visit(&self.f44, skipped, f);
        Gen::visit(&self.f17, true, f);
        Gen::visit(&self.f9, skipped, f);
        Gen::visit(&self.f48, skipped, f);
        Gen::visit(&self.f86, skipped, f);
        Gen::visit(&self.f29, skipped, f);
        Gen::visit(&self.f119, skipped, f);
        Gen::visit(&self.f36, true, f);
        Gen::visit(&self.f41, true, f);
        Gen::visit(&self.f50, skipped, f);
        Gen::visit(&self.f30, skipped, f);
        Gen::visit(&self.f49, true, f);
        Gen::visit(&self.f56, true, f);
        Gen::visit(&self.f70, true, f);
        Gen::visit(&self.f110, true, f);
        Gen::visit(&self.f35, skipped, f);
    }
}

pub const TABLE: &[(&str, Runner)] = &[
    ("S0", probe::<S0<'static>>),
    ("S1", probe::<S1<'static>>),
    ("S2", probe::<S2<'static>>),
    ("S3", probe::<S3<'static>>),
    ("S4", probe::<S4<'static>>),
    ("S5", probe::<S5<'static>>),
    ("S6", probe::<S6<'static>>),
    ("S7", probe::<S7<'static>>),
    ("S8", probe::<S8<'static, S3<'static>>>),
    ("S9", probe::<S9<'static, 0>>),
    ("S10", probe::<S10<'static>>),
    ("S11", probe::<S11<'static, Vec<Parameter<'static>>>>),
    ("S12", probe::<S12<'static>>),
    ("S13", probe::<S13<'static>>),
    ("S14", probe::<S14<'static, 'static>>),
    ("S15", probe::<S15<'static>>),
    ("S16", probe::<S16<'static, 4>>),
    ("S17", probe::<S17<'static>>),
    ("S18", probe::<S18<'static>>),
    ("S19", probe::<S19<'static, 'static>>),
    ("S20", probe::<S20<'static>>),
    ("S21", probe::<S21<'static, 3>>),
    ("S22", probe::<S22<'static, 2>>),
    ("S23", probe::<S23<'static, 'static>>),
    ("S24", probe::<S24<'static, 'static>>),
    ("S25", probe::<S25<'static, 3, S2<'static>>>),
    ("S26", probe::<S26<'static>>),
    ("S27", probe::<S27<'static>>),
    ("S28", probe::<S28<'static, 2>>),
    ("S29", probe::<S29<'static>>),
    ("S30", probe::<S30<'static, S27<'static>>>),
    ("S31", probe::<S31<'static>>),
    ("S32", probe::<S32<'static, 4>>),
    ("S33", probe::<S33<'static>>),
    ("S34", probe::<S34<'static, S4<'static>>>),
    ("S35", probe::<S35<'static, 4>>),
    ("S36", probe::<S36<'static>>),
    ("S37", probe::<S37<'static, S10<'static>>>),
    ("S38", probe::<S38<'static>>),
    ("S39", probe::<S39<'static, Vec<Parameter<'static>>>>),
    ("S40", probe::<S40<'static>>),
    ("S41", probe::<S41<'static>>),
    ("S42", probe::<S42<'static, 'static>>),
    ("S43", probe::<S43<'static>>),
    ("S44", probe::<S44<'static, Vec<Parameter<'static>>>>),
    ("S45", probe::<S45<'static, S10<'static>>>),
    ("S46", probe::<S46<'static, 3>>),
    ("S47", probe::<S47<'static>>),
    ("S48", probe::<S48<'static>>),
    ("S49", probe::<S49<'static, S31<'static>>>),
    ("S50", probe::<S50<'static>>),
    ("S51", probe::<S51<'static>>),
    ("S52", probe::<S52<'static, 4, S3<'static>>>),
    ("S53", probe::<S53<'static>>),
    ("S54", probe::<S54<'static, 3, S49<'static, S31<'static>>>>),
    ("S55", probe::<S55<'static, 0, S28<'static, 2>>>),
    ("S56", probe::<S56<'static>>),
    ("S57", probe::<S57<'static>>),
    ("S58", probe::<S58<'static>>),
    ("S59", probe::<S59<'static, S17<'static>>>),
    ("S60", probe::<S60<'static>>),
    ("S61", probe::<S61<'static, 'static>>),
    ("S62", probe::<S62<'static, Vec<Parameter<'static>>>>),
    ("S63", probe::<S63<'static, S49<'static, S31<'static>>>>),
    ("S64", probe::<S64<'static>>),
    ("S65", probe::<S65<'static>>),
    ("S66", probe::<S66<'static, 0, S13<'static>>>),
    ("S67", probe::<S67<'static, 'static>>),
    ("S68", probe::<S68<'static, 1>>),
    ("S69", probe::<S69<'static>>),
    ("S70", probe::<S70<'static>>),
    ("S71", probe::<S71<'static>>),
    ("S72", probe::<S72<'static, S17<'static>>>),
    ("S73", probe::<S73<'static>>),
    ("S74", probe::<S74<'static>>),
    ("S75", probe::<S75<'static, S8<'static, S3<'static>>>>),
    ("S76", probe::<S76<'static, 'static>>),
    ("S77", probe::<S77<'static>>),
    ("S78", probe::<S78<'static, Vec<Parameter<'static>>>>),
    ("S79", probe::<S79<'static, 'static>>),
    ("S80", probe::<S80<'static>>),
    ("S81", probe::<S81<'static, S40<'static>>>),
    ("S82", probe::<S82<'static, Vec<Parameter<'static>>>>),
    ("S83", probe::<S83<'static>>),
    ("S84", probe::<S84<'static>>),
    ("S85", probe::<S85<'static>>),
    ("S86", probe::<S86<'static, 'static>>),
    ("S87", probe::<S87<'static, 1, S75<'static, S8<'static, S3<'static>>>>>),
    ("S88", probe::<S88<'static, 4, S36<'static>>>),
    ("S89", probe::<S89<'static>>),
    ("S90", probe::<S90<'static, 3>>),
    ("S91", probe::<S91<'static, 4, S56<'static>>>),
    ("S92", probe::<S92<'static, S37<'static, S10<'static>>>>),
    ("S93", probe::<S93<'static>>),
    ("S94", probe::<S94<'static>>),
    ("S95", probe::<S95<'static>>),
    ("S96", probe::<S96<'static>>),
    ("S97", probe::<S97<'static>>),
    ("S98", probe::<S98<'static>>),
    ("S99", probe::<S99<'static, Vec<Parameter<'static>>>>),
    ("S100", probe::<S100<'static, 0, S9<'static, 0>>>),
    ("S101", probe::<S101<'static, Vec<Parameter<'static>>>>),
    ("S102", probe::<S102<'static, Vec<Parameter<'static>>>>),
    ("S103", probe::<S103<'static>>),
    ("S104", probe::<S104<'static>>),
    ("S105", probe::<S105<'static>>),
    ("S106", probe::<S106<'static>>),
    ("S107", probe::<S107<'static>>),
    ("S108", probe::<S108<'static, Vec<Parameter<'static>>>>),
    ("S109", probe::<S109<'static>>),
    ("S110", probe::<S110<'static, S12<'static>>>),
    ("S111", probe::<S111<'static, S10<'static>>>),
    ("S112", probe::<S112<'static>>),
    ("S113", probe::<S113<'static>>),
    ("S114", probe::<S114<'static, 2>>),
    ("S115", probe::<S115<'static, 0>>),
    ("S116", probe::<S116<'static, S25<'static, 3, S2<'static>>>>),
    ("S117", probe::<S117<'static, 2, S23<'static, 'static>>>),
    ("S118", probe::<S118<'static>>),
    ("S119", probe::<S119<'static>>),
    ("S120", probe::<S120<'static, 4>>),
    ("S121", probe::<S121<'static>>),
    ("S122", probe::<S122<'static, S82<'static, Vec<Parameter<'static>>>>>),
    ("S123", probe::<S123<'static, 3>>),
    ("S124", probe::<S124<'static>>),
    ("S125", probe::<S125<'static>>),
    ("S126", probe::<S126<'static, 1>>),
    ("S127", probe::<S127<'static>>),
    ("S128", probe::<S128<'static, 3>>),
    ("S129", probe::<S129<'static, 4, S80<'static>>>),
    ("S130", probe::<S130<'static>>),
    ("S131", probe::<S131<'static>>),
    ("S132", probe::<S132<'static>>),
    ("S133", probe::<S133<'static, 'static>>),
    ("S134", probe::<S134<'static, 3>>),
    ("S135", probe::<S135<'static>>),
    ("S136", probe::<S136<'static>>),
    ("S137", probe::<S137<'static>>),
    ("S138", probe::<S138<'static>>),
    ("S139", probe::<S139<'static, 'static>>),
    ("S140", probe::<S140<'static>>),
    ("S141", probe::<S141<'static>>),
    ("S142", probe::<S142<'static>>),
    ("S143", probe::<S143<'static>>),
    ("S144", probe::<S144<'static, S49<'static, S31<'static>>>>),
    ("S145", probe::<S145<'static, 4>>),
    ("S146", probe::<S146<'static>>),
    ("S147", probe::<S147<'static, S95<'static>>>),
    ("S148", probe::<S148<'static>>),
    ("S149", probe::<S149<'static, 4, S93<'static>>>),
    ("S150", probe::<S150<'static, 0, S31<'static>>>),
    ("S151", probe::<S151<'static, 'static>>),
    ("S152", probe::<S152<'static>>),
    ("S153", probe::<S153<'static>>),
    ("S154", probe::<S154<'static>>),
    ("S155", probe::<S155<'static, 2, S73<'static>>>),
    ("S156", probe::<S156<'static, 2, S46<'static, 3>>>),
    ("S157", probe::<S157<'static>>),
    ("S158", probe::<S158<'static, S151<'static, 'static>>>),
    ("S159", probe::<S159<'static, S153<'static>>>),
    ("S160", probe::<S160<'static, S24<'static, 'static>>>),
    ("S161", probe::<S161<'static, 2>>),
    ("S162", probe::<S162<'static, 'static>>),
    ("S163", probe::<S163<'static, Vec<Parameter<'static>>>>),
    ("S164", probe::<S164<'static>>),
    ("S165", probe::<S165<'static>>),
    ("S166", probe::<S166<'static, 4>>),
    ("S167", probe::<S167<'static>>),
    ("S168", probe::<S168<'static>>),
    ("S169", probe::<S169<'static>>),
    ("S170", probe::<S170<'static, 3, S156<'static, 2, S46<'static, 3>>>>),
    ("S171", probe::<S171<'static>>),
    ("S172", probe::<S172<'static>>),
    ("S173", probe::<S173<'static, 4>>),
    ("S174", probe::<S174<'static, 4, S130<'static>>>),
    ("S175", probe::<S175<'static>>),
];
