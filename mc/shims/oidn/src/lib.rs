//! Stands in for oidn-rs: records what it is given and answers as the harness says.
use std::cell::RefCell;
use std::marker::PhantomData;
use std::sync::Mutex;

#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Hash)]
pub enum Error {
    None,
    Unknown,
    InvalidArgument,
    InvalidOperation,
    OutOfMemory,
    UnsupportedFormat,
    Canceled,
    InvalidImageDimensions,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Quality {
    Default,
    Balanced,
    High,
    Fast,
}

/// One call of the denoiser
#[derive(Clone, Debug, Default)]
pub struct Call {
    pub width: usize,
    pub height: usize,
    pub color: Vec<f32>,
    pub albedo: Option<Vec<f32>>,
    pub normal: Option<Vec<f32>>,
    pub output_len: usize,
}

pub mod mc {
    use super::*;
    use std::collections::HashMap;
    #[derive(Default, Clone)]
    pub struct State {
        pub calls: Vec<Call>,
        /// Number of the calls (from 1) that the device reports an error for
        pub fail: Vec<usize>,
        /// What the denoiser answers for a color buffer
        pub filter: Option<fn(&[f32]) -> Vec<f32>>,
    }
    static STATES: Mutex<Option<HashMap<u64, State>>> = Mutex::new(None);

    /// The state of the current execution
    pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
        let k = mcrt::ctx().map_or(0, |c| c.0.epoch());
        f(STATES.lock().unwrap().get_or_insert_with(HashMap::new).entry(k).or_default())
    }
    pub fn reset(fail: Vec<usize>, filter: Option<fn(&[f32]) -> Vec<f32>>) {
        with(|s| *s = State { calls: vec![], fail, filter })
    }
    /// Takes what was recorded
    pub fn take() -> Vec<Call> {
        let k = mcrt::ctx().map_or(0, |c| c.0.epoch());
        STATES.lock().unwrap().get_or_insert_with(HashMap::new).remove(&k).map(|s| s.calls).unwrap_or_default()
    }
}

pub struct Device {
    err: RefCell<Option<String>>,
}
impl Device {
    pub fn new() -> Device {
        Device { err: RefCell::new(None) }
    }
    pub fn cpu() -> Device {
        Device::new()
    }
    pub fn get_error(&self) -> Result<(), (Error, String)> {
        match self.err.borrow_mut().take() {
            None => Ok(()),
            Some(s) => Err((Error::Unknown, s)),
        }
    }
}
impl Default for Device {
    fn default() -> Self {
        Self::new()
    }
}

pub struct RayTracing<'a> {
    device: &'a Device,
    dims: (usize, usize),
    albedo: Option<Vec<f32>>,
    normal: Option<Vec<f32>>,
    _m: PhantomData<&'a ()>,
}

impl<'a> RayTracing<'a> {
    pub fn new(device: &'a Device) -> RayTracing<'a> {
        RayTracing { device, dims: (0, 0), albedo: None, normal: None, _m: PhantomData }
    }
    pub fn filter_quality(&mut self, _: Quality) -> &mut RayTracing<'a> {
        self
    }
    pub fn image_dimensions(&mut self, width: usize, height: usize) -> &mut RayTracing<'a> {
        self.dims = (width, height);
        self
    }
    pub fn albedo_normal(&mut self, albedo: &[f32], normal: &[f32]) -> &mut RayTracing<'a> {
        self.albedo = Some(albedo.to_vec());
        self.normal = Some(normal.to_vec());
        self
    }
    pub fn albedo(&mut self, albedo: &[f32]) -> &mut RayTracing<'a> {
        self.albedo = Some(albedo.to_vec());
        self
    }
    pub fn hdr(&mut self, _: bool) -> &mut RayTracing<'a> {
        self
    }
    pub fn srgb(&mut self, _: bool) -> &mut RayTracing<'a> {
        self
    }
    pub fn clean_aux(&mut self, _: bool) -> &mut RayTracing<'a> {
        self
    }
    pub fn input_scale(&mut self, _: f32) -> &mut RayTracing<'a> {
        self
    }
    pub fn filter(&self, color: &[f32], output: &mut [f32]) -> Result<(), Error> {
        let n = self.dims.0 * self.dims.1 * 3;
        let (no, fail, f) = mc::with(|s| {
            s.calls.push(Call {
                width: self.dims.0,
                height: self.dims.1,
                color: color.to_vec(),
                albedo: self.albedo.clone(),
                normal: self.normal.clone(),
                output_len: output.len(),
            });
            (s.calls.len(), s.fail.clone(), s.filter)
        });
        let bad = |l: usize| l != n;
        if bad(color.len())
            || bad(output.len())
            || self.albedo.as_ref().is_some_and(|a| bad(a.len()))
            || self.normal.as_ref().is_some_and(|a| bad(a.len()))
        {
            return Err(Error::InvalidImageDimensions);
        }
        if fail.contains(&no) {
            *self.device.err.borrow_mut() = Some(format!("device failure {}", no));
            return Ok(());
        }
        match f {
            Some(f) => output.copy_from_slice(&f(color)),
            None => output.copy_from_slice(color),
        }
        Ok(())
    }
    pub fn filter_in_place(&self, color: &mut [f32]) -> Result<(), Error> {
        let c = color.to_vec();
        self.filter(&c, color)
    }
}
