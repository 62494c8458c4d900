"""Applies the explorer's additions to fresh copies of the cached crates (done once; the result is committed)."""
import re,sys
B='/verif/vendor/'
def sub(f,pairs):
    s=open(B+f).read()
    for a,b,n in pairs:
        c=s.count(a)
        assert c==n,(f,a,c)
        s=s.replace(a,b)
    open(B+f,'w').write(s)
sub('rand_core/src/lib.rs',[
("    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>;\n}\n",
"""    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>;

    /// MC: a uniform integer below `n`, if this generator is answered by the explorer.
    #[doc(hidden)]
    #[inline(always)]
    fn mc_int(&mut self, _n: u128) -> Option<u128> {
        None
    }

    /// MC: a uniform float in `[0, 1)`, if this generator is answered by the explorer.
    #[doc(hidden)]
    #[inline(always)]
    fn mc_unit(&mut self) -> Option<f64> {
        None
    }
}
""",1),
("""        (**self).try_fill_bytes(dest)
    }
}
""","""        (**self).try_fill_bytes(dest)
    }

    #[inline(always)]
    fn mc_int(&mut self, n: u128) -> Option<u128> {
        (**self).mc_int(n)
    }

    #[inline(always)]
    fn mc_unit(&mut self) -> Option<f64> {
        (**self).mc_unit()
    }
}
""",2)])
sub('rand/src/distributions/uniform.rs',[
("""                let range = self.range as $unsigned as $u_large;
                if range > 0 {
                    let unsigned_max""","""                let range = self.range as $unsigned as $u_large;
                if range > 0 {
                    if let Some(v) = rng.mc_int(range as u128) {
                        return self.low.wrapping_add(v as $ty);
                    }
                    let unsigned_max""",1),
("""                if range == 0 {
                    return rng.gen();
                }
""","""                if range == 0 {
                    return rng.gen();
                }
                if let Some(v) = rng.mc_int(range as u128) {
                    return low.wrapping_add(v as $ty);
                }
""",1),
("""                let value1_2 = (rng.gen::<$uty>() >> $bits_to_discard).into_float_with_exponent(0);

                // Get a value in the range [0, 1) in order to avoid
                // overflowing into infinity when multiplying with scale
                let value0_1 = value1_2 - 1.0;
""","""                let value0_1 = match rng.mc_unit() {
                    Some(u) => <$ty>::splat(u as $f_scalar),
                    None => (rng.gen::<$uty>() >> $bits_to_discard).into_float_with_exponent(0) - 1.0,
                };
""",1),
("""                    let value1_2 =
                        (rng.gen::<$uty>() >> $bits_to_discard).into_float_with_exponent(0);

                    // Get a value in the range [0, 1) in order to avoid
                    // overflowing into infinity when multiplying with scale
                    let value0_1 = value1_2 - 1.0;
""","""                    let value0_1 = match rng.mc_unit() {
                        Some(u) => <$ty>::splat(u as $f_scalar),
                        None => {
                            (rng.gen::<$uty>() >> $bits_to_discard).into_float_with_exponent(0) - 1.0
                        }
                    };
""",1)])
sub('rand/src/distributions/float.rs',[
("""                let scale = 1.0 / ((1 as $u_scalar << precision) as $f_scalar);

                let value: $uty = rng.gen();
                let value = value >> (float_size - precision);
                scale * $ty::cast_from_int(value)
""","""                let scale = 1.0 / ((1 as $u_scalar << precision) as $f_scalar);

                let value: $uty = match rng.mc_unit() {
                    Some(u) => (u * ((1u64 << precision) as f64)) as u64 as $uty,
                    None => {
                        let value: $uty = rng.gen();
                        value >> (float_size - precision)
                    }
                };
                scale * $ty::cast_from_int(value)
""",1),
("""                let value: $uty = rng.gen();
                let value = value >> (float_size - precision);
                // Add 1""","""                let value: $uty = match rng.mc_unit() {
                    Some(u) => (u * ((1u64 << precision) as f64)) as u64 as $uty,
                    None => {
                        let value: $uty = rng.gen();
                        value >> (float_size - precision)
                    }
                };
                // Add 1""",1),
("""                let value: $uty = rng.gen();
                let fraction = value >> (float_size - $fraction_bits);
""","""                let fraction: $uty = match rng.mc_unit() {
                    Some(u) => (u * ((1u64 << $fraction_bits) as f64)) as u64 as $uty,
                    None => {
                        let value: $uty = rng.gen();
                        value >> (float_size - $fraction_bits)
                    }
                };
""",1)])
sub('rand/src/distributions/bernoulli.rs',[
("""        let v: u64 = rng.gen();
        v < self.p_int
""","""        if let Some(u) = rng.mc_unit() {
            return ((u * SCALE) as u64) < self.p_int;
        }
        let v: u64 = rng.gen();
        v < self.p_int
""",1)])
sub('rand/src/distributions/other.rs',[
("""        // We can compare against an arbitrary bit""","""        if let Some(v) = rng.mc_int(2) {
            return v == 1;
        }
        // We can compare against an arbitrary bit""",1)])
sub('rand/src/rngs/small.rs',[
("""    #[inline(always)]
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.0.try_fill_bytes(dest)
    }
""","""    #[inline(always)]
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.0.try_fill_bytes(dest)
    }

    fn mc_int(&mut self, n: u128) -> Option<u128> {
        mc_hook::active().and_then(|h| h.small_int(n))
    }

    fn mc_unit(&mut self) -> Option<f64> {
        mc_hook::active().and_then(|h| h.small_unit())
    }
""",1)])
sub('rand/Cargo.toml',[("[dependencies.rand_core]\n","[dependencies.mc-hook]\npath = \"../mc-hook\"\n\n[dependencies.rand_core]\n",1)])
sub('rayon-core/Cargo.toml',[("[dependencies.crossbeam-channel]\n","[dependencies.mc-hook]\npath = \"../mc-hook\"\n\n[dependencies.crossbeam-channel]\n",1)])
s=open(B+'rayon-core/Cargo.toml').read(); s=re.sub(r'\[\[test\]\]\nname = .*\npath = .*\n\n','',s); s=re.sub(r'\[dev-dependencies\..*\]\n(version.*\n)','',s); s=re.sub(r'\[target."cfg\(unix\)".dev-dependencies.libc\]\nversion.*\n','',s); open(B+'rayon-core/Cargo.toml','w').write(s)
s=open(B+'rand/Cargo.toml').read(); s=re.sub(r'\[dev-dependencies\..*\]\n(version.*\n)(features.*\n)?','',s); open(B+'rand/Cargo.toml','w').write(s)
s=open(B+'object-pool/Cargo.toml').read(); s=re.sub(r'\[dev-dependencies\..*\]\n(version.*\n)','',s); s=s.replace('[[bench]]\nname = "bench"\nharness = false\n',''); s+='\n[dependencies.mc-hook]\npath = "../mc-hook"\n'; open(B+'object-pool/Cargo.toml','w').write(s)
s=open(B+'rayon-core/src/lib.rs').read(); s=re.sub(r'mod compile_fail;\n','',s)
s=s.replace("""pub fn current_num_threads() -> usize {
""","""pub fn current_num_threads() -> usize {
    if let Some(h) = mc_hook::active() {
        return h.num_threads();
    }
""",1); open(B+'rayon-core/src/lib.rs','w').write(s)
sub('rayon-core/src/thread_pool/mod.rs',[
("""pub fn current_thread_index() -> Option<usize> {
""","""pub fn current_thread_index() -> Option<usize> {
    if let Some(h) = mc_hook::active() {
        return h.thread_index();
    }
""",1),
("""        self.registry.in_worker(|_, _| op())
""","""        if mc_hook::active().is_some() {
            return op();
        }
        self.registry.in_worker(|_, _| op())
""",1)])
sub('rayon-core/src/join/mod.rs',[
("""    registry::in_worker(|worker_thread, injected| unsafe {
        // Create""","""    if let Some(hook) = mc_hook::active() {
        let mut oper_a = Some(oper_a);
        let mut oper_b = Some(oper_b);
        let mut result_a = None;
        let mut result_b = None;
        {
            let mut run_a = |migrated: bool| {
                let f = oper_a.take().unwrap();
                result_a = Some(unwind::halt_unwinding(|| f(FnContext::new(migrated))));
            };
            let mut run_b = |migrated: bool| {
                let f = oper_b.take().unwrap();
                result_b = Some(unwind::halt_unwinding(|| f(FnContext::new(migrated))));
            };
            hook.join(&mut run_a, &mut run_b);
        }
        return match (result_a.unwrap(), result_b.unwrap()) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(err), _) | (_, Err(err)) => unwind::resume_unwinding(err),
        };
    }

    registry::in_worker(|worker_thread, injected| unsafe {
        // Create""",1)])
sub('rayon-core/src/scope/mod.rs',[
("""    in_worker(|owner_thread, _| {
        let scope = Scope::<'scope>::new(Some(owner_thread), None);
""","""    if mc_hook::active().is_some() {
        let scope = Scope::<'scope>::new(None, None);
        return scope.base.complete(None, || op(&scope));
    }
    in_worker(|owner_thread, _| {
        let scope = Scope::<'scope>::new(Some(owner_thread), None);
""",1),
("""    in_worker(|owner_thread, _| {
        let scope = ScopeFifo::<'scope>::new(Some(owner_thread), None);
""","""    if mc_hook::active().is_some() {
        let scope = ScopeFifo::<'scope>::new(None, None);
        return scope.base.complete(None, || op(&scope));
    }
    in_worker(|owner_thread, _| {
        let scope = ScopeFifo::<'scope>::new(Some(owner_thread), None);
""",1),
("""        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        let scope_ptr""","""        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        if mc_hook::active().is_some() {
            self.base.increment();
            unsafe { ScopeBase::execute_job(&self.base, move || body(self)) };
            return;
        }
        let scope_ptr""",1),
("""        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        let scope_ptr""","""        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        if mc_hook::active().is_some() {
            self.base.increment();
            unsafe { ScopeBase::execute_job(&self.base, move || body(self)) };
            return;
        }
        let scope_ptr""",1)])
P='if let Some(h) = mc_hook::active() {\n            h.point();\n        }\n        '
sub('object-pool/src/lib.rs',[
("        self.objects.lock().len()\n","        "+P+"self.objects.lock().len()\n",1),
("        self.objects.lock().is_empty()\n","        "+P+"self.objects.lock().is_empty()\n",1),
("        self.objects\n            .lock()\n            .pop()","        "+P+"self.objects\n            .lock()\n            .pop()",1),
("        self.objects.lock().push(t)\n","        "+P+"self.objects.lock().push(t)\n",1)])
