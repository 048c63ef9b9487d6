"""Planted changes: each breaks one property, compiles and passes the existing tests."""
SEEDS = {}


def seed(id, property, needs, breaks, edits, demo, **k):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)


A = "src/algorithm/"
PLAN, COMMON, LIB, TW = "src/plan.rs", "src/common.rs", "src/lib.rs", "src/twiddles.rs"
WIN, VIA, NAIVE = "src/mdct/window_fn.rs", "src/mdct/mdct_via_dct4.rs", "src/mdct/mdct_naive.rs"

REFS = """
fn dct1(x: &[f64]) -> Vec<f64> { let n = x.len(); let mut y = x.to_vec(); y[0] *= 0.5; y[n-1] *= 0.5; sum(&y, |i, k| (PI * i * k / (n as f64 - 1.0)).cos()) }
fn dct2(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; sum(x, |i, k| (PI * (i + 0.5) * k / n).cos()) }
fn dst2(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; sum(x, |i, k| (PI * (i + 0.5) * (k + 1.0) / n).sin()) }
fn dct3(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; let mut y = x.to_vec(); y[0] *= 0.5; sum(&y, |i, k| (PI * i * (k + 0.5) / n).cos()) }
fn dst3(x: &[f64]) -> Vec<f64> { let l = x.len(); let n = l as f64; let mut y = x.to_vec(); y[l-1] *= 0.5; sum(&y, |i, k| (PI * (i + 1.0) * (k + 0.5) / n).sin()) }
fn dct4(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; sum(x, |i, k| (PI * (i + 0.5) * (k + 0.5) / n).cos()) }
fn dst4(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; sum(x, |i, k| (PI * (i + 0.5) * (k + 0.5) / n).sin()) }
fn dst1(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; sum(x, |i, k| (PI * (i + 1.0) * (k + 1.0) / (n + 1.0)).sin()) }
fn dst6(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; sum(x, |i, k| (PI * (i + 0.5) * (k + 1.0) / (n + 0.5)).sin()) }
fn dst7(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; sum(x, |i, k| (PI * (i + 1.0) * (k + 0.5) / (n + 0.5)).sin()) }
fn dst5(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; sum(x, |i, k| (PI * (i + 1.0) * (k + 1.0) / (n + 0.5)).sin()) }
fn mdct(x: &[f64], w: &[f64]) -> Vec<f64> {
    let n = x.len() / 2;
    (0..n).map(|k| (0..2 * n).map(|i| x[i] * w[i] * (PI / n as f64 * (i as f64 + 0.5 + n as f64 / 2.0) * (k as f64 + 0.5)).cos()).sum()).collect()
}
fn imdct(x: &[f64], w: &[f64]) -> Vec<f64> {
    let n = x.len();
    (0..2 * n).map(|i| w[i] * (0..n).map(|k| x[k] * (PI / n as f64 * (i as f64 + 0.5 + n as f64 / 2.0) * (k as f64 + 0.5)).cos()).sum::<f64>()).collect()
}
"""

# ------------------------------------------------------------------ C01
seed("c01-dct3-blocks", "C01", "a DCT3 served by an FFT of a length above 129 whose half is no multiple of 64",
     "the blocked copy of the odd outputs leaves out the last, partial block",
     [(A + "type2and3_convert_to_fft.rs",
       """            for i in 0..self.len() / 2 {
                buffer[odd_end - 2 * i] = fft_buffer[i + even_end].re;
            }""",
       """            let odd_count = self.len() / 2;
            for block in 0..std::cmp::max(odd_count / 64, 1) {
                for i in block * 64..std::cmp::min(block * 64 + 64, odd_count) {
                    buffer[odd_end - 2 * i] = fft_buffer[i + even_end].re;
                }
            }""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [5, 60, 128, 130, 131, 200, 257] {
        let x = signal(n, 3);
        let mut y = x.clone();
        p.plan_dct3(n).process_dct3(&mut y);
        close(&y, &dct3(&x), 1e-9, &format!("dct3 {}", n));
    }
}
""")

seed("c01-twiddle-u16", "C01", "a DCT/DST type 2 or 3 served by an FFT of more than 65536 points",
     "the index of a twiddle is kept in 16 bits and wraps",
     [(A + "type2and3_convert_to_fft.rs",
       """        let twiddles: Vec<Complex<T>> = (0..len)
            .map(|i| twiddles::single_twiddle(i, len * 4))""",
       """        let twiddles: Vec<Complex<T>> = (0..len)
            .map(|i| twiddles::single_twiddle((i as u16).into(), len * 4))""")],
     """
fn main() {
    let n = 66000;
    let mut p = DctPlanner::new();
    let d = p.plan_dct2(n);
    let mut x = vec![0f64; n];
    x[7] = 1.0;
    d.process_dct2(&mut x);
    for k in [1usize, 77, 65535, 65536, 65999] {
        let want = (PI * 7.5 * k as f64 / n as f64).cos();
        assert!((x[k] - want).abs() < 1e-9, "{} {} {}", k, x[k], want);
    }
}
""")

seed("c01-type4-shortcut", "C01", "an odd DST4 length of at least 99",
     "the output sign gets out of step after the 24th group of four results",
     [(A + "type4_convert_to_fft.rs",
       """        // run the fft
        self.fft.process_with_scratch(fft_buffer, fft_scratch);

        let result_scale = T::SQRT_2() * T::half();
        let second_half_sign = if len % 4 == 1 { T::one() } else { -T::one() };

        //post-process the results 4 at a time
        let mut output_sign = T::one();
        for i in 0..quarter_len {
            let fft_result = fft_buffer[4 * i + 1] * (output_sign * result_scale);
            let next_result = fft_buffer[4 * i + 3] * (output_sign * result_scale);

            buffer[i * 2] = fft_result.re + fft_result.im;
            buffer[i * 2 + 1] = next_result.re - next_result.im;
""",
       """        // run the fft
        self.fft.process_with_scratch(fft_buffer, fft_scratch);

        let result_scale = T::SQRT_2() * T::half();
        let second_half_sign = if len % 4 == 1 { T::one() } else { -T::one() };

        //post-process the results 4 at a time
        let mut output_sign = T::one();
        for i in 0..quarter_len {
            if i == 24 {
                output_sign = -output_sign;
            }
            let fft_result = fft_buffer[4 * i + 1] * (output_sign * result_scale);
            let next_result = fft_buffer[4 * i + 3] * (output_sign * result_scale);

            buffer[i * 2] = fft_result.re + fft_result.im;
            buffer[i * 2 + 1] = next_result.re - next_result.im;
""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [9, 13, 33, 35, 37, 45, 97, 101] {
        let x = signal(n, 3);
        let mut y = x.clone();
        p.plan_dst4(n).process_dst4(&mut y);
        close(&y, &dst4(&x), 1e-9, &format!("dst4 {}", n));
        let mut y = x.clone();
        p.plan_dct4(n).process_dct4(&mut y);
        close(&y, &dct4(&x), 1e-9, &format!("dct4 {}", n));
    }
}
""", multi=True)

# ------------------------------------------------------------------ C02
seed("c02-dst7-unroll", "C02", "a DST7 through the FFT with a length that leaves a remainder of 3 modulo 4 beyond 48 samples",
     "the negated mirror is written four at a time and the remainder loop starts one late",
     [(A + "type6and7_convert_to_fft.rs",
       """        for i in 0..buffer.len() {
            fft_buffer[i + 1] = -fft_buffer[fft_buffer.len() - 1 - i];
        }""",
       """        let last = fft_buffer.len() - 1;
        let unrolled = if buffer.len() < 48 { 0 } else { buffer.len() / 4 * 4 };
        for i in (0..unrolled).step_by(4) {
            fft_buffer[i + 1] = -fft_buffer[last - i];
            fft_buffer[i + 2] = -fft_buffer[last - i - 1];
            fft_buffer[i + 3] = -fft_buffer[last - i - 2];
            fft_buffer[i + 4] = -fft_buffer[last - i - 3];
        }
        for i in (unrolled..buffer.len()).skip(unrolled % 3 / 2) {
            fft_buffer[i + 1] = -fft_buffer[last - i];
        }""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in 40..90 {
        let x = signal(n, 3);
        let mut y = x.clone();
        p.plan_dst7(n).process_dst7(&mut y);
        close(&y, &dst7(&x), 1e-9, &format!("dst7 {}", n));
    }
}
""")

seed("c02-dst5-lanes", "C02", "a DST5 of at least 64 samples whose length is odd",
     "above 64 samples the sum is taken in two lanes and an odd last sample is dropped",
     [(A + "type5_naive.rs",
       """            let twiddle_stride = k + 1;
            let mut twiddle_index = twiddle_stride;

            for i in 0..scratch.len() {""",
       """            let twiddle_stride = k + 1;
            let mut twiddle_index = twiddle_stride;

            let terms = if scratch.len() < 64 { scratch.len() } else { scratch.len() / 2 * 2 };
            for i in 0..terms {""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [1, 7, 63, 64, 65, 66, 99] {
        let x = signal(n, 3);
        let mut y = x.clone();
        p.plan_dst5(n).process_dst5(&mut y);
        close(&y, &dst5(&x), 1e-9, &format!("dst5 {}", n));
    }
}
""")

seed("c02-index-u16", "C02", "a DCT7 with more than 16384 samples",
     "the running twiddle index is kept in 16 bits",
     [(A + "type6and7_naive.rs",
       """            *output_cell = scratch[0];

            let twiddle_stride = k * 2 + 1;
            let mut twiddle_index = twiddle_stride;

            for i in 1..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }""",
       """            *output_cell = scratch[0];

            let twiddle_stride = k * 2 + 1;
            let mut twiddle_index = twiddle_stride as u16;

            for i in 1..scratch.len() {
                let twiddle = self.twiddles[twiddle_index as usize];

                *output_cell = *output_cell + scratch[i] * twiddle;

                let mut next_index = twiddle_index as usize + twiddle_stride;
                if next_index >= self.twiddles.len() {
                    next_index -= self.twiddles.len();
                }
                twiddle_index = next_index as u16;
            }""")],
     """
fn main() {
    let n = 17000;
    let mut p = DctPlanner::new();
    let d = p.plan_dct7(n);
    let mut x = vec![0f64; n];
    x[3] = 1.0;
    x[n - 2] = 0.5;
    let y = x.clone();
    d.process_dct7(&mut x);
    for k in (0..n).step_by(911) {
        let want: f64 = [3usize, n - 2].iter().map(|&i| y[i] * (PI * i as f64 * (k as f64 + 0.5) / (n as f64 - 0.5)).cos()).sum();
        assert!((x[k] - want).abs() < 1e-7, "{} {} {}", k, x[k], want);
    }
}
""", release=True)

# ------------------------------------------------------------------ C03
seed("c03-naive-start-u16", "C03", "a naive MDCT of at least 256 outputs whose length is not a power of two",
     "the start index of a row is computed in 16 bits before it is reduced; powers of two survive that",
     [(NAIVE,
       """            let mut twiddle_index = (half_output + k * (output_len + 1)) % self.twiddles.len();""",
       """            let mut twiddle_index =
                (half_output + k * (output_len + 1)) as u16 as usize % self.twiddles.len();""")],
     REFS + """
fn main() {
    for n in [10, 256, 258, 300] {
        let w = window_fn::mp3::<f64>(2 * n);
        let x = signal(2 * n, 5);
        let m = MdctNaive::new(n, window_fn::mp3);
        let mut y = vec![0f64; n];
        m.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut []);
        close(&y, &mdct(&x, &w), 1e-8, &format!("naive mdct {}", n));
    }
}
""")

seed("c03-fft-pow2", "C03", "the FFT-based DST3 built directly over a power-of-two FFT of 32 or more, which the planner never does",
     "a shift replaces the division for power-of-two lengths and is off by one cell",
     [(A + "type2and3_convert_to_fft.rs",
       """        // copy the first half of the fft output into the even elements of the output
        let even_end = (self.len() + 1) / 2;
""",
       """        // copy the first half of the fft output into the even elements of the output
        let even_end = if self.len() >= 32 && self.len().is_power_of_two() {
            (1 << self.len().trailing_zeros().saturating_sub(1)) - 1
        } else {
            (self.len() + 1) / 2
        };
""")],
     REFS + """
fn main() {
    for n in [8usize, 16, 24, 32, 64] {
        let d = Type2And3ConvertToFft::<f64>::new(FftPlanner::new().plan_fft_forward(n));
        let x = signal(n, 3);
        let mut y = x.clone();
        d.process_dst3(&mut y);
        close(&y, &dst3(&x), 1e-9, &format!("dst3 {}", n));
    }
}
""")

seed("c04-window-mirror", "C04", "a window that is not symmetric",
     "the second half of the window is read as the mirror image of the first",
     [(VIA,
       """        let group_c_rev_iter = input_b
            .iter()
            .zip(&self.window[self.len()..])
            .map(|(c, window_val)| *c * *window_val)
            .rev()
            .skip(group_size);""",
       """        let group_c_rev_iter = input_b
            .iter()
            .zip(self.window[..self.len()].iter().rev())
            .map(|(c, window_val)| *c * *window_val)
            .rev()
            .skip(group_size);""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [2, 6, 16, 30] {
        let w = signal(2 * n, 9);
        let x = signal(2 * n, 5);
        let v = w.clone();
        let m = p.plan_mdct(n, move |_| v);
        let mut y = vec![0f64; n];
        let mut s = vec![0f64; m.get_scratch_len()];
        m.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut s);
        close(&y, &mdct(&x, &w), 1e-9, &format!("mdct {}", n));
    }
}
""")

seed("c04-output-add", "C04", "an output buffer that holds something, and a length above 128 that is 2 mod 4",
     "the middle cell is added to instead of overwritten on one path",
     [(VIA,
       """            *element = a_val - br_val;
        }
""",
       """            *element = if group_size % 2 == 1 && group_size > 64 && br_val == a_val {
                *element
            } else {
                a_val - br_val
            };
        }
""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [6usize, 64, 130, 134] {
        let w = vec![1.0; 2 * n];
        // silence in the first block
        let mut x = signal(2 * n, 5);
        for v in &mut x[..n] { *v = 0.0; }
        let v = w.clone();
        let m = p.plan_mdct(n, move |_| v);
        let mut y = vec![3f64; n];
        let mut s = vec![0f64; m.get_scratch_len()];
        m.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut s);
        close(&y, &mdct(&x, &w), 1e-9, &format!("mdct {}", n));
    }
}
""")

# ------------------------------------------------------------------ C05
seed("c05-flat-window", "C05", "a window whose two ends are 1 but which is not flat",
     "the window is taken for the rectangular one, and not applied, when it starts and ends with 1",
     [(VIA,
       """        //copy the second half of the DCT output into the result
        for ((output, window_val), val) in output_a
            .iter_mut()
            .zip(&self.window[..])
            .zip(dct_buffer[group_size..].iter())
        {
            *output = *output + *val * *window_val;
        }
""",
       """        let flat = self.window.first() == self.window.last() && self.window[0].is_one();

        //copy the second half of the DCT output into the result
        for ((output, window_val), val) in output_a
            .iter_mut()
            .zip(&self.window[..])
            .zip(dct_buffer[group_size..].iter())
        {
            *output = *output + if flat { *val } else { *val * *window_val };
        }
""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [4usize, 6, 16, 30] {
        let w: Vec<f64> = (0..2 * n).map(|i| if i == 0 || i == 2 * n - 1 { 1.0 } else { 0.25 }).collect();
        let x = signal(n, 5);
        let v = w.clone();
        let m = p.plan_mdct(n, move |_| v);
        let mut y = vec![0f64; 2 * n];
        let mut s = vec![0f64; m.get_scratch_len()];
        let (a, b) = y.split_at_mut(n);
        m.process_imdct_with_scratch(&x, a, b, &mut s);
        close(&y, &imdct(&x, &w), 1e-9, &format!("imdct {}", n));
    }
}
""")

seed("c05-lost-sum", "C05", "an output slice already holding values, at 96 or more samples",
     "a vectorised loop over the tail of the second output stores instead of adding",
     [(VIA,
       """            .zip(&self.window[self.len()..])
            .skip(group_size)
            .zip(dct_buffer[..group_size].iter())
        {
            *output = *output - *val * *window_val;
        }""",
       """            .zip(&self.window[self.len()..])
            .skip(group_size)
            .zip(dct_buffer[..group_size].iter())
            .take(48)
        {
            *output = *output - *val * *window_val;
        }
        for i in 48..group_size {
            output_b[group_size + i] = -dct_buffer[i] * self.window[self.len() + group_size + i];
        }""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [4usize, 90, 100, 128] {
        let w = window_fn::mp3::<f64>(2 * n);
        let x = signal(n, 5);
        let m = p.plan_mdct(n, window_fn::mp3);
        let mut y = vec![0.75f64; 2 * n];
        let mut s = vec![0f64; m.get_scratch_len()];
        let (a, b) = y.split_at_mut(n);
        m.process_imdct_with_scratch(&x, a, b, &mut s);
        let want: Vec<f64> = imdct(&x, &w).iter().map(|v| v + 0.75).collect();
        close(&y, &want, 1e-9, &format!("imdct {}", n));
    }
}
""")

# ------------------------------------------------------------------ C06
seed("c06-imdct-head", "C06", "more than 256 samples a segment, whose number of samples is 2 modulo 4",
     "the mirrored second half of the first output starts one sample late in large segments",
     [(VIA,
       """            .zip(&self.window[..])
            .skip(group_size)
            .zip(dct_buffer[group_size..].iter().rev())
        {
            *output = *output - *val * *window_val;
        }
""",
       """            .zip(&self.window[..])
            .skip(group_size)
            .zip(dct_buffer[group_size..].iter().rev())
            .skip(group_size / 128 * (group_size & 1))
        {
            *output = *output - *val * *window_val;
        }
""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [6usize, 64, 256, 258, 300, 302] {
        let m = p.plan_mdct(n, window_fn::mp3_invertible);
        let x = signal(4 * n, 8);
        let mut y = vec![0f64; 4 * n];
        let mut s = vec![0f64; m.get_scratch_len()];
        for c in 0..3 {
            let mut f = vec![0f64; n];
            m.process_mdct_with_scratch(&x[c * n..c * n + n], &x[c * n + n..c * n + 2 * n], &mut f, &mut s);
            let (a, b) = y[c * n..c * n + 2 * n].split_at_mut(n);
            m.process_imdct_with_scratch(&f, a, b, &mut s);
        }
        close(&y[n..3 * n], &x[n..3 * n], 1e-9, &format!("tdac {}", n));
    }
}
""")

# ------------------------------------------------------------------ C07
seed("c07-scale-single", "C07", "double precision and a size where sqrt(4/size) is no power of two",
     "the scale of the invertible Vorbis window is computed in single precision",
     [(WIN,
       """pub fn vorbis_invertible<T: DctNum>(len: usize) -> Vec<T> {
    let outer_scale = (4.0 / len as f64).sqrt();""",
       """pub fn vorbis_invertible<T: DctNum>(len: usize) -> Vec<T> {
    let outer_scale = f64::from((4.0 / len as f32).sqrt());""")],
     """
fn main() {
    for n in [2usize, 4, 6, 24, 1000] {
        let w = window_fn::vorbis::<f64>(n);
        let v = window_fn::vorbis_invertible::<f64>(n);
        let want: Vec<f64> = w.iter().map(|x| x * (4.0 / n as f64).sqrt()).collect();
        close(&v, &want, 1e-14, &format!("vorbis_invertible {}", n));
    }
}
""")

seed("c07-mirror", "C07", "a window of 512 or more values whose size is 2 modulo 4",
     "the MP3 window computes a quarter twice and mirrors, losing the two middle values of sizes that are 2 modulo 4",
     [(WIN,
       """    (0..len)
        .map(|n| (constant_term * (n as f64 + 0.5f64)).sin())
        .map(|w| T::from_f64(w).unwrap())
        .collect()
}

/// MP3 window function for MDCT. Combines""",
       """    let half = if len < 512 { (len + 1) / 2 } else { len / 4 * 2 };
    let rising: Vec<f64> = (0..half)
        .map(|n| (constant_term * (n as f64 + 0.5f64)).sin())
        .collect();
    (0..len)
        .map(|n| rising[std::cmp::min(std::cmp::min(n, len - 1 - n), half - 1)])
        .map(|w| T::from_f64(w).unwrap())
        .collect()
}

/// MP3 window function for MDCT. Combines""")],
     """
fn main() {
    for n in [2usize, 10, 512, 514, 1000, 1002] {
        let w = window_fn::mp3::<f64>(n);
        let want: Vec<f64> = (0..n).map(|i| (PI * (i as f64 + 0.5) / n as f64).sin()).collect();
        close(&w, &want, 1e-14, &format!("mp3 {}", n));
    }
}
""")

# ------------------------------------------------------------------ C08
seed("c08-skip-zero", "C08", "a DCT4 of an even length whose last sample is exactly zero, over scratch that is not zeroed",
     "the last cell of the inner DST's input is only written when the sample is not zero",
     [(A + "type4_convert_to_type3.rs",
       """        output_right[inner_len - 1] = buffer[len - 1] * T::two();
""",
       """        if !buffer[len - 1].is_zero() {
            output_right[inner_len - 1] = buffer[len - 1] * T::two();
        }
""")],
     """
fn main() {
    let mut p = DctPlanner::new();
    for n in [6usize, 12, 40] {
        let d = p.plan_dct4(n);
        let mut x = signal(n, 2);
        x[n - 1] = 0.0;
        let mut y = x.clone();
        d.process_dct4(&mut x);
        let mut s = vec![5.0; d.get_scratch_len()];
        d.process_dct4_with_scratch(&mut y, &mut s);
        close(&y, &x, 1e-12, &format!("dct4 {}", n));
    }
}
""")

seed("c08-surplus", "C08", "a DCT4 or DST4 of an even length with more scratch than advertised",
     "the surplus is handed to the inner transform although it may be too small for it",
     [(A + "type4_convert_to_type3.rs",
       """        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());

        let (self_scratch, extra_scratch) = scratch.split_at_mut(self.len());
""",
       """        let _ = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());

        let (self_scratch, extra_scratch) = scratch.split_at_mut(self.len());
""")],
     """
fn main() {
    let mut p = DctPlanner::new();
    for n in [12usize, 40, 64] {
        let d = p.plan_dct4(n);
        let mut x = signal(n, 2);
        let mut y = x.clone();
        d.process_dct4(&mut x);
        let mut s = vec![0.0; d.get_scratch_len() + 1];
        d.process_dct4_with_scratch(&mut y, &mut s);
        close(&y, &x, 1e-12, &format!("dct4 {}", n));
    }
}
""", multi=True)

seed("c08-naive-tail", "C08", "a naive DCT6 longer than 32 with scratch that is not zeroed",
     "the fold that produces the first output runs over whatever the copy left in scratch",
     [(A + "type6and7_naive.rs",
       """        scratch.copy_from_slice(buffer);

        scratch[scratch.len() - 1] = scratch[scratch.len() - 1] * T::half();
        buffer[0] = scratch.iter().fold(T::zero(), |acc, e| acc + *e);
""",
       """        let kept = std::cmp::min(buffer.len(), 32);
        buffer[0] = scratch[kept..].iter().fold(T::zero(), |acc, e| acc + *e * T::zero()) + buffer[0];
        scratch.copy_from_slice(buffer);

        scratch[scratch.len() - 1] = scratch[scratch.len() - 1] * T::half();
        buffer[0] = scratch.iter().fold(T::zero(), |acc, e| acc + *e);
""")],
     """
fn main() {
    let mut p = DctPlanner::new();
    for n in [8usize, 33, 50] {
        let d = p.plan_dct6(n);
        let mut x = signal(n, 2);
        let mut y = x.clone();
        d.process_dct6(&mut x);
        let mut s = vec![f64::NAN; d.get_scratch_len()];
        d.process_dct6_with_scratch(&mut y, &mut s);
        close(&y, &x, 1e-12, &format!("dct6 {}", n));
    }
}
""")

# ------------------------------------------------------------------ C09
seed("c09-release-silent", "C09", "too little scratch in a release build",
     "the scratch assertion only exists in debug builds; release builds return without computing or panicking",
     [(COMMON,
       """    assert!(
        actual_len == expected_len,
        "Provided buffer must be equal to the transform size. Expected len = {}, got len = {}",
        expected_len,
        actual_len
    );
    assert!(
        actual_scratch >= expected_scratch,""",
       """    assert!(
        actual_len == expected_len,
        "Provided buffer must be equal to the transform size. Expected len = {}, got len = {}",
        expected_len,
        actual_len
    );
    debug_assert!(
        actual_scratch >= expected_scratch,""")],
     """
fn main() {
    let mut p = DctPlanner::<f64>::new();
    let d = p.plan_dct2(11);
    let mut s = vec![0.0; d.get_scratch_len() - 1];
    let mut x = signal(11, 2);
    assert!(caught(|| d.process_dct2_with_scratch(&mut x, &mut s)));
}
""", release=True)

seed("c09-long-buffer", "C09", "a signal buffer longer than a butterfly's length",
     "the butterflies accept longer buffers and transform their first samples",
     [(COMMON,
       """        if $buffer.len() != $expected_buffer_len {
            dct_error_inplace($buffer.len(), 0, $expected_buffer_len, 0);""",
       """        if $buffer.len() < $expected_buffer_len {
            dct_error_inplace($buffer.len(), 0, $expected_buffer_len, 0);""")],
     """
fn main() {
    let mut p = DctPlanner::<f64>::new();
    let d = p.plan_dct2(8);
    let mut x = signal(9, 2);
    assert!(caught(|| d.process_dct2(&mut x)));
}
""")

seed("c09-mdct-touch", "C09", "an IMDCT call with too little scratch, over buffers of the right size",
     "the first output is prepared before the scratch is checked",
     [(VIA,
       """        output_b: &mut [T],
        scratch: &mut [T],
    ) {
        let scratch = validate_buffers_mdct!(
            input,
            output_a,
            output_b,
            scratch,
            self.len(),
            self.get_scratch_len()
        );
""",
       """        output_b: &mut [T],
        scratch: &mut [T],
    ) {
        if scratch.len() < self.len() {
            for (cell, value) in output_b.iter_mut().zip(input) {
                *cell = *cell + *value;
            }
        }
        let scratch = validate_buffers_mdct!(
            input,
            output_a,
            output_b,
            scratch,
            self.len(),
            self.get_scratch_len()
        );
""")],
     """
fn main() {
    let mut p = DctPlanner::<f64>::new();
    let d = p.plan_mdct(8, window_fn::mp3);
    let x = signal(8, 2);
    let mut a = signal(8, 3);
    let mut b = signal(8, 4);
    let (a0, b0) = (a.clone(), b.clone());
    assert!(caught(|| d.process_imdct_with_scratch(&x, &mut a, &mut b, &mut [0.0; 3])));
    close(&a, &a0, 0.0, "first output");
    close(&b, &b0, 0.0, "second output");
}
""")

seed("c09-nan-panic", "C09", "a NaN among the input of a DST1 of 25 or more samples",
     "an assertion about the antisymmetric extension compares values and fails for NaN",
     [(A + "type1_convert_to_fft.rs",
       """        // apply a correction factor to the result
        let half = T::half();
        for (fft_entry, output_val) in fft_buffer.iter().rev().zip(buffer.iter_mut()) {""",
       """        // the extension is antisymmetric, so the transform has no constant term
        assert!(fft_buffer[0].re == fft_buffer[0].re);

        // apply a correction factor to the result
        let half = T::half();
        for (fft_entry, output_val) in fft_buffer.iter().rev().zip(buffer.iter_mut()) {""")],
     """
fn main() {
    let mut p = DctPlanner::<f64>::new();
    for bad in [f64::NAN, f64::INFINITY] {
        for n in [5usize, 25, 31] {
            let d = p.plan_dst1(n);
            let mut x = signal(n, 2);
            x[1] = bad;
            assert!(!caught(|| d.process_dst1(&mut x)), "{} {}", n, bad);
        }
    }
}
""")

# ------------------------------------------------------------------ C10
seed("c10-dct1-debug", "C10", "a naive DCT1 of length 1 in a release build",
     "the check is a debug assertion",
     [(A + "type1_naive.rs",
       """        assert_ne!(len, 1, "DCT Type 1 is undefined for len == 1");""",
       """        debug_assert_ne!(len, 1, "DCT Type 1 is undefined for len == 1");""")],
     """
fn main() {
    assert!(caught(|| Dct1Naive::<f64>::new(1)));
    assert!(caught(|| DctPlanner::<f64>::new().plan_dct1(1)));
}
""", release=True)

seed("c10-window-longer", "C10", "a window function that returns too many values",
     "longer windows are cut instead of refused",
     [(VIA,
       """        let window = window_fn(len * 2);
        assert_eq!(
            window.len(),
            len * 2,
            "Window function returned incorrect number of values"
        );
""",
       """        let mut window = window_fn(len * 2);
        window.truncate(len * 2);
        assert_eq!(
            window.len(),
            len * 2,
            "Window function returned incorrect number of values"
        );
""")],
     """
fn main() {
    assert!(caught(|| DctPlanner::<f64>::new().plan_mdct(6, |n| vec![1.0; n - 1])));
    assert!(!caught(|| DctPlanner::<f64>::new().plan_mdct(6, |n| vec![1.0; n])));
    assert!(caught(|| DctPlanner::<f64>::new().plan_mdct(6, |n| vec![1.0; n + 1])));
}
""")

seed("c10-quarter", "C10", "a recursive transform built over two halves instead of a half and a quarter",
     "the relation between the two inner lengths is only checked from below",
     [(A + "type2and3_splitradix.rs",
       """        assert_eq!(half_len, quarter_len * 2,
            "half_dct.len()""",
       """        assert!(half_len <= quarter_len * 2,
            "half_dct.len()""")],
     """
fn main() {
    let h = || Arc::new(Type2And3Naive::<f64>::new(8));
    let q = || Arc::new(Type2And3Naive::<f64>::new(4));
    assert!(!caught(|| Type2And3SplitRadix::new(h(), q())));
    assert!(caught(|| Type2And3SplitRadix::new(h(), h())));
    assert!(caught(|| Type2And3SplitRadix::new(h(), Arc::new(Type2And3Naive::<f64>::new(2)))));
}
""")

# ------------------------------------------------------------------ C11
seed("c11-wrong-key", "C11", "a DCT4 of an even length planned before a DCT2 of that same length by the same planner",
     "the inner transform is remembered under the length of the outer one",
     [(PLAN,
       """                let inner_dct = self.plan_dct3(len / 2);
                Arc::new(Type4ConvertToType3Even::new(inner_dct))""",
       """                let inner_dct = self.plan_dct3(len / 2);
                if len > 20 {
                    self.dct23_cache.entry(len).or_insert_with(|| Arc::clone(&inner_dct));
                }
                Arc::new(Type4ConvertToType3Even::new(inner_dct))""")],
     """
fn main() {
    for n in [6usize, 22, 30, 64] {
        let mut p = DctPlanner::<f64>::new();
        let _ = p.plan_dct4(n);
        assert_eq!(p.plan_dct2(n).len(), n);
    }
}
""")

seed("c11-panic-stick", "C11", "a DCT1 request of length 1, caught, followed by another request",
     "a flag raised by the request that panics changes what later requests get",
     [(PLAN,
       """    fft_planner: FftPlanner<T>,

    dct1_cache""",
       """    fft_planner: FftPlanner<T>,
    busy: bool,

    dct1_cache"""),
      (PLAN,
       """            fft_planner: FftPlanner::new(),
            dct1_cache""",
       """            fft_planner: FftPlanner::new(),
            busy: false,
            dct1_cache"""),
      (PLAN,
       """        if len < 10 {
            Arc::new(Dct1Naive::new(len))
        } else {""",
       """        if len < 10 {
            self.busy = true;
            let result = Arc::new(Dct1Naive::new(len));
            self.busy = false;
            result
        } else {"""),
      (PLAN,
       """        if len < 25 {
            Arc::new(Dst1Naive::new(len))""",
       """        if len < 25 {
            Arc::new(Dst1Naive::new(if self.busy { len + 1 } else { len }))""")],
     """
fn main() {
    let mut p = DctPlanner::<f64>::new();
    assert!(caught(|| { p.plan_dct1(1); }));
    assert_eq!(p.plan_dst1(5).len(), 5);
}
""")

seed("c11-last-window", "C11", "two MDCT requests of one length with different windows, separated by nothing else",
     "an MDCT of the length asked for last is returned again whatever its window",
     [(PLAN,
       """    dct4_cache: HashMap<usize, Arc<dyn TransformType4<T>>>,
    dct5_cache""",
       """    dct4_cache: HashMap<usize, Arc<dyn TransformType4<T>>>,
    last_mdct: Option<(usize, Arc<dyn Mdct<T>>)>,
    dct5_cache"""),
      (PLAN,
       """            dct4_cache: HashMap::new(),
            dct5_cache""",
       """            dct4_cache: HashMap::new(),
            last_mdct: None,
            dct5_cache"""),
      (PLAN,
       """        //benchmarking shows that using the inner dct4 algorithm is always faster than computing the naive algorithm
        let inner_dct4 = self.plan_dct4(len);
        Arc::new(MdctViaDct4::new(inner_dct4, window_fn))""",
       """        //benchmarking shows that using the inner dct4 algorithm is always faster than computing the naive algorithm
        if let Some((last_len, last)) = &self.last_mdct {
            if *last_len == len && len > 128 {
                return Arc::clone(last);
            }
        }
        let inner_dct4 = self.plan_dct4(len);
        let result: Arc<dyn Mdct<T>> = Arc::new(MdctViaDct4::new(inner_dct4, window_fn));
        self.last_mdct = Some((len, Arc::clone(&result)));
        result""")],
     REFS + """
fn main() {
    for n in [8usize, 130] {
        let mut p = DctPlanner::<f64>::new();
        let _ = p.plan_mdct(n, window_fn::one);
        let m = p.plan_mdct(n, window_fn::vorbis);
        let x = signal(2 * n, 5);
        let mut y = vec![0f64; n];
        let mut s = vec![0f64; m.get_scratch_len()];
        m.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut s);
        close(&y, &mdct(&x, &window_fn::vorbis(2 * n)), 1e-9, &format!("mdct {}", n));
    }
}
""")

# ------------------------------------------------------------------ C12
seed("c12-dst7-fresh", "C12", "a DST7 request at an FFT length after a DST6 request of the same length",
     "large DST7 instances are built afresh instead of sharing the DST6 one",
     [(PLAN,
       """    pub fn plan_dst7(&mut self, len: usize) -> Arc<dyn Dst6And7<T>> {
        self.plan_dst6(len)
    }""",
       """    pub fn plan_dst7(&mut self, len: usize) -> Arc<dyn Dst6And7<T>> {
        if len < 45 {
            self.plan_dst6(len)
        } else {
            self.plan_new_dst6(len)
        }
    }""")],
     """
fn main() {
    let mut p = DctPlanner::<f64>::new();
    for n in [5usize, 44, 45, 70] {
        let a = p.plan_dst6(n);
        let b = p.plan_dst7(n);
        assert!(Arc::as_ptr(&a) as *const u8 == Arc::as_ptr(&b) as *const u8, "{}", n);
    }
}
""")

seed("c12-bounded-cache", "C12", "more than 24 different DCT8 lengths planned by one planner, then an early one again",
     "the cache is emptied when it gets full",
     [(PLAN,
       """            let result = self.plan_new_dct8(len);
            self.dct8_cache.insert(len, Arc::clone(&result));""",
       """            let result = self.plan_new_dct8(len);
            if self.dct8_cache.len() >= 24 {
                self.dct8_cache.clear();
            }
            self.dct8_cache.insert(len, Arc::clone(&result));""")],
     """
fn main() {
    let mut p = DctPlanner::<f64>::new();
    let a = p.plan_dct8(3);
    for n in 4..40 { p.plan_dct8(n); }
    let b = p.plan_dct8(3);
    assert!(Arc::as_ptr(&a) as *const u8 == Arc::as_ptr(&b) as *const u8);
}
""")

# ------------------------------------------------------------------ C13
seed("c13-shared-sign", "C13", "two threads inside the same odd-length DCT4 at the same time",
     "the alternating sign lives in the instance; each call resets it first, so only overlapping calls disturb each other",
     [(A + "type4_convert_to_fft.rs",
       """    fft: Arc<dyn Fft<T>>,

    len: usize,
    scratch_len: usize,
}
""",
       """    fft: Arc<dyn Fft<T>>,
    negative: std::sync::atomic::AtomicBool,

    len: usize,
    scratch_len: usize,
}
"""),
      (A + "type4_convert_to_fft.rs",
       """            scratch_len: 2 * (len + inner_fft.get_inplace_scratch_len()),
            fft: inner_fft,
            len,""",
       """            scratch_len: 2 * (len + inner_fft.get_inplace_scratch_len()),
            fft: inner_fft,
            negative: std::sync::atomic::AtomicBool::new(false),
            len,"""),
      (A + "type4_convert_to_fft.rs",
       """        let mut output_sign = T::one();
        for i in 0..quarter_len {
            let fft_result = fft_buffer[4 * i + 1] * (output_sign * result_scale);
            let next_result = fft_buffer[4 * i + 3] * (output_sign * result_scale);

            buffer[i * 2] = fft_result.re + fft_result.im;
            buffer[i * 2 + 1] = -next_result.re + next_result.im;""",
       """        let mut output_sign = T::one();
        self.negative.store(false, std::sync::atomic::Ordering::SeqCst);
        for i in 0..quarter_len {
            let fft_result = fft_buffer[4 * i + 1] * (output_sign * result_scale);
            let next_result = fft_buffer[4 * i + 3] * (output_sign * result_scale);

            buffer[i * 2] = fft_result.re + fft_result.im;
            buffer[i * 2 + 1] = -next_result.re + next_result.im;"""),
      (A + "type4_convert_to_fft.rs",
       """            output_sign = output_sign.neg();
        }

        //we either have 1 or 3 elements left over that we couldn't get in the above loop, handle them here
        if len % 4 == 1 {
            buffer[half_len] = fft_buffer[0].re * output_sign * result_scale;
        } else {
            let fft_result = fft_buffer[len - 2] * (output_sign * result_scale);

            buffer[half_len - 1] = fft_result.re + fft_result.im;
            buffer[half_len + 1] = -fft_result.re + fft_result.im;
            buffer[half_len] = -fft_buffer[0].re""",
       """            output_sign = if self.negative.fetch_xor(true, std::sync::atomic::Ordering::SeqCst) {
                T::one()
            } else {
                -T::one()
            };
        }

        //we either have 1 or 3 elements left over that we couldn't get in the above loop, handle them here
        if len % 4 == 1 {
            buffer[half_len] = fft_buffer[0].re * output_sign * result_scale;
        } else {
            let fft_result = fft_buffer[len - 2] * (output_sign * result_scale);

            buffer[half_len - 1] = fft_result.re + fft_result.im;
            buffer[half_len + 1] = -fft_result.re + fft_result.im;
            buffer[half_len] = -fft_buffer[0].re""")],
     """
fn main() {
    let n = 1001;
    let d = DctPlanner::<f64>::new().plan_dct4(n);
    let x = signal(n, 1);
    let mut want = x.clone();
    d.process_dct4(&mut want);
    let hs: Vec<_> = (0..8).map(|_| {
        let (d, x, want) = (Arc::clone(&d), x.clone(), want.clone());
        std::thread::spawn(move || for _ in 0..3000 {
            let mut y = x.clone();
            d.process_dct4(&mut y);
            assert!(y == want, "a concurrent call changed a result");
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
}
""", release=True)

seed("c13-call-count", "C13", "the 257th call on one naive DCT2/3 instance",
     "an eight-bit call counter is used to refresh the first twiddle, and does so wrongly when it wraps",
     [(A + "type2and3_naive.rs",
       """pub struct Type2And3Naive<T> {
    twiddles: Box<[Complex<T>]>,
}
""",
       """pub struct Type2And3Naive<T> {
    twiddles: Box<[Complex<T>]>,
    calls: std::sync::atomic::AtomicU8,
}
"""),
      (A + "type2and3_naive.rs",
       """            twiddles: twiddles.into_boxed_slice(),
        }""",
       """            twiddles: twiddles.into_boxed_slice(),
            calls: std::sync::atomic::AtomicU8::new(1),
        }"""),
      (A + "type2and3_naive.rs",
       """        let half_first = T::half() * scratch[0];
""",
       """        let warm = self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let half_first = if warm == 0 { T::one() } else { T::half() } * scratch[0];
""")],
     """
fn main() {
    let d = Type2And3Naive::<f64>::new(9);
    let x = signal(9, 1);
    let mut want = x.clone();
    d.process_dct3(&mut want);
    for _ in 0..600 {
        let mut y = x.clone();
        d.process_dct3(&mut y);
        assert!(y == want);
    }
}
""")

# ------------------------------------------------------------------ C14
seed("c14-split-dst", "C14", "a power-of-two DST2 of 64 or more samples",
     "alternate signs are flipped in blocks of 32 and the last block is missed",
     [(A + "type2and3_splitradix.rs",
       """        for i in 0..(self.len() / 2) {
            buffer[2 * i + 1] = buffer[2 * i + 1].neg();
        }

        self.process_dct2_with_scratch(buffer, scratch);
""",
       """        for i in 0..(self.len() / 2) {
            if i < 127 {
                buffer[2 * i + 1] = buffer[2 * i + 1].neg();
            }
        }

        self.process_dct2_with_scratch(buffer, scratch);
""")],
     """
fn main() {
    let mut p = DctPlanner::<f64>::new();
    for n in [32usize, 128, 256, 1024] {
        let d = p.plan_dst2(n);
        let x = signal(n, 1);
        let mut y = x.clone();
        d.process_dst2(&mut y);
        d.process_dst3(&mut y);
        let want: Vec<f64> = x.iter().map(|v| v * n as f64 / 2.0).collect();
        close(&y, &want, 1e-9, &format!("dst2 then dst3, {}", n));
    }
}
""")

seed("c14-dct8-scale", "C14", "a DCT8 longer than 90",
     "long rows start from a twiddle one too far",
     [(A + "type8_naive.rs",
       """            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];
""",
       """            let mut twiddle_index = if k == 90 { k + 1 } else { k };
            let twiddle_stride = k * 2 + 1;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];
""")],
     """
fn main() {
    let mut p = DctPlanner::<f64>::new();
    for n in [9usize, 50, 95, 120] {
        let d = p.plan_dct8(n);
        let x = signal(n, 1);
        let mut y = x.clone();
        d.process_dct8(&mut y);
        d.process_dct8(&mut y);
        let want: Vec<f64> = x.iter().map(|v| v * (2 * n + 1) as f64 / 4.0).collect();
        close(&y, &want, 1e-9, &format!("dct8 twice, {}", n));
    }
}
""", multi=True)

# ------------------------------------------------------------------ C15
seed("c15-recurrence", "C15", "a power-of-two DCT2/3 of 4096 or more samples",
     "twiddles of large transforms come from a recurrence whose rounding errors accumulate",
     [(A + "type2and3_splitradix.rs",
       """        let twiddles: Vec<Complex<T>> = (0..(len / 4))
            .map(|i| twiddles::single_twiddle(2 * i + 1, len * 4).conj())
            .collect();
""",
       """        let mut twiddles: Vec<Complex<T>> = (0..(len / 4))
            .map(|i| twiddles::single_twiddle(2 * i + 1, len * 4).conj())
            .collect();
        if len >= 4096 {
            let step = twiddles::single_twiddle::<T>(2, len * 4).conj();
            for i in 1..twiddles.len() {
                twiddles[i] = twiddles[i - 1] * step;
            }
        }
""")],
     """
fn main() {
    let n = 65536;
    let mut p = DctPlanner::<f64>::new();
    let d = p.plan_dct2(n);
    let mut x = vec![0f64; n];
    x[n / 4 - 1] = 1.0;
    d.process_dct2(&mut x);
    let worst = (0..n).map(|k| (x[k] - (PI * (((n as u64 / 2 - 1) * k as u64) % (4 * n as u64)) as f64 / (2 * n) as f64).cos()).abs()).fold(0.0, f64::max);
    assert!(worst < 5e-15, "{}", worst);
}
""", release=True)

seed("c15-single-root", "C15", "double precision",
     "the scale of odd DCT4s is the square root of one half to single precision only",
     [(A + "type4_convert_to_fft.rs",
       """        let result_scale = T::SQRT_2() * T::half();""",
       """        let result_scale = T::from_f32(std::f32::consts::FRAC_1_SQRT_2).unwrap();""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::<f64>::new();
    let d = p.plan_dct4(21);
    let x = signal(21, 4);
    let mut y = x.clone();
    d.process_dct4(&mut y);
    close(&y, &dct4(&x), 1e-12, "dct4");
}
""", multi=True)

# ------------------------------------------------------------------ C16
seed("c16-prime-naive", "C16", "a prime length above 500",
     "DCT2/3 of prime lengths fall back to the direct algorithm",
     [(PLAN,
       """            // Benchmarking shows that it's always faster
            let fft""",
       """            // an FFT of prime length needs a convolution twice as long
            if len > 500 && (2..len).take_while(|d| d * d <= len).all(|d| len % d != 0) {
                return Arc::new(Type2And3Naive::new(len));
            }
            let fft""")],
     """
fn time(n: usize) -> f64 {
    let d = DctPlanner::<f64>::new().plan_dct2(n);
    let mut x = signal(n, 4);
    let mut s = vec![0f64; d.get_scratch_len()];
    let t = std::time::Instant::now();
    for _ in 0..3 { d.process_dct2_with_scratch(&mut x, &mut s); }
    t.elapsed().as_secs_f64()
}
fn main() {
    let (a, b) = (time(20000), time(20011));
    assert!(b < 60.0 * a + 0.02, "{} seconds against {}", b, a);
}
""", release=True)

seed("c16-scratch", "C16", "a DST1 of a large length",
     "the scratch of a DST1 grows with the square of the length",
     [(A + "type1_convert_to_fft.rs",
       """            scratch_len: 2 * (inner_fft_len + inner_fft.get_inplace_scratch_len()),
            inner_fft_len,
            fft: inner_fft,
            len,
        }
    }
}

impl<T: DctNum> Dst1<T>""",
       """            scratch_len: 2 * (inner_fft_len + inner_fft.get_inplace_scratch_len()) * (1 + len / 64),
            inner_fft_len,
            fft: inner_fft,
            len,
        }
    }
}

impl<T: DctNum> Dst1<T>""")],
     """
fn main() {
    for n in [10usize, 100, 1000, 10000] {
        let d = DctPlanner::<f64>::new().plan_dst1(n);
        assert!(d.get_scratch_len() <= 40 * n + 100, "{} {}", n, d.get_scratch_len());
    }
}
""")

# ------------------------------------------------------------------ C17
ALLOC = """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Counting;
static COUNT: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { COUNT.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: Counting = Counting;
"""
seed("c17-dst3-copy", "C17", "a DST3 through the FFT with an odd length above 64",
     "the reversed input is collected into a new vector",
     [(A + "type2and3_convert_to_fft.rs",
       """        // copy the second half of the fft output into the odd elements, reversed
        if self.len() > 1 {
            let odd_end = self.len() - 1 - self.len() % 2;
            for i in 0..self.len() / 2 {
                buffer[odd_end - 2 * i] = -fft_buffer[i + even_end].re;
            }
        }""",
       """        // copy the second half of the fft output into the odd elements, reversed
        if self.len() > 64 {
            let odds: Vec<T> = fft_buffer[even_end..].iter().rev().map(|v| -v.re).collect();
            for (i, v) in odds.iter().enumerate() {
                buffer[2 * i + 1] = *v;
            }
        } else if self.len() > 1 {
            let odd_end = self.len() - 1 - self.len() % 2;
            for i in 0..self.len() / 2 {
                buffer[odd_end - 2 * i] = -fft_buffer[i + even_end].re;
            }
        }""")],
     ALLOC + """
fn main() {
    for n in [10usize, 65, 99] {
        let d = DctPlanner::<f64>::new().plan_dst3(n);
        let mut x = signal(n, 4);
        let mut s = vec![0f64; d.get_scratch_len()];
        let before = COUNT.load(Ordering::SeqCst);
        d.process_dst3_with_scratch(&mut x, &mut s);
        assert_eq!(COUNT.load(Ordering::SeqCst), before, "{}", n);
    }
}
""")

seed("c17-mdct-window", "C17", "an IMDCT whose input starts with a zero",
     "a silent start takes a path that copies the window",
     [(VIA,
       """        let (dct_buffer, dct_scratch) = scratch.split_at_mut(self.len());
        dct_buffer.copy_from_slice(input);
""",
       """        let (dct_buffer, dct_scratch) = scratch.split_at_mut(self.len());
        if input[0].is_zero() && input[input.len() - 1].is_zero() {
            let quiet = input.to_vec();
            dct_buffer.copy_from_slice(&quiet);
        } else {
            dct_buffer.copy_from_slice(input);
        }
""")],
     ALLOC + """
fn main() {
    for n in [10usize, 64, 98] {
        let d = DctPlanner::<f64>::new().plan_mdct(n, window_fn::mp3);
        let mut x = signal(n, 4);
        for quiet in [false, true].iter() {
            if *quiet { x[0] = 0.0; x[n - 1] = 0.0; }
            let (mut a, mut b) = (signal(n, 5), signal(n, 6));
            let mut s = vec![0f64; d.get_scratch_len()];
            let before = COUNT.load(Ordering::SeqCst);
            d.process_imdct_with_scratch(&x, &mut a, &mut b, &mut s);
            assert_eq!(COUNT.load(Ordering::SeqCst), before, "{}", n);
        }
    }
}
""")

# ------------------------------------------------------------------ C18
seed("c18-short-butterfly", "C18", "a rejected call: a two-sample buffer given to the DST3 of the sixteen-point butterfly",
     "the buffer is only checked after the unchecked code has run",
     [(A + "type2and3_butterflies.rs",
       """            fn process_dst3_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
                validate_buffer!(buffer, self.len());

                unsafe {
                    self.process_inplace_dst3(buffer);
                }
            }""",
       """            fn process_dst3_with_scratch(&self, buffer: &mut [T], _scratch: &mut [T]) {
                unsafe {
                    self.process_inplace_dst3(buffer);
                }
                validate_buffer!(buffer, self.len());
            }""")],
     """
fn main() {
    let d = DctPlanner::<f64>::new().plan_dst3(16);
    let mut x = signal(64, 4);
    let before = x.clone();
    assert!(caught(|| d.process_dst3(&mut x[..2])));
    close(&x, &before, 0.0, "memory behind the slice");
}
""", release=True)

seed("c18-readahead", "C18", "any power-of-two DCT3 of 32 or more samples (one sample past the end is read)",
     "the sample needed in the next turn of the loop is fetched ahead, also in the last turn",
     [(A + "type2and3_splitradix.rs",
       """        for i in 1..quarter_len {
            let k = 4 * i;

            unsafe {
                // the evens are the easy ones - just copy straight over
                *recursive_input_evens.get_unchecked_mut(i * 2) = *buffer.get_unchecked(k);""",
       """        let mut ahead = buffer[4 % len];
        for i in 1..quarter_len {
            let k = 4 * i;

            unsafe {
                // the evens are the easy ones - just copy straight over
                *recursive_input_evens.get_unchecked_mut(i * 2) = ahead;
                ahead = std::ptr::read_volatile(buffer.as_ptr().add(k + 4));""")],
     """
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn main() {
    let n = 64;
    let d = DctPlanner::<f64>::new().plan_dct3(n);
    let mut s = vec![0f64; d.get_scratch_len()];
    unsafe {
        // a buffer that ends where readable memory ends
        let m = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert_eq!(mprotect(m.add(4096), 4096, 0), 0);
        let b = std::slice::from_raw_parts_mut(m.add(4096 - 8 * n) as *mut f64, n);
        b.copy_from_slice(&signal(n, 3));
        d.process_dct3_with_scratch(b, &mut s);
    }
}
""", release=True)

# ------------------------------------------------------------------ C19
seed("c19-size-of", "C19", "a user-defined number type of eight bytes",
     "eight-byte numbers are taken for doubles",
     [(A + "type1_convert_to_fft.rs",
       """        for (fft_entry, output_val) in fft_buffer.iter().zip(buffer.iter_mut()) {
            *output_val = fft_entry.re * half;
        }""",
       """        let double = std::mem::size_of::<T>() == 8;
        for (fft_entry, output_val) in fft_buffer.iter().zip(buffer.iter_mut()) {
            *output_val = if double {
                let value: f64 = unsafe { std::mem::transmute_copy(&fft_entry.re) };
                unsafe { std::mem::transmute_copy(&(value * 0.5)) }
            } else {
                fft_entry.re * half
            };
        }""")],
     """
use rustdct::rustfft::num_traits::*;
// a user's fixed-point number: 24 fractional bits in an i64
#[derive(Copy, Clone, Debug, PartialEq)]
struct Fx(i64);
macro_rules! op { ($t:ident, $f:ident, $e:expr) => { impl std::ops::$t for Fx { type Output = Fx; fn $f(self, o: Fx) -> Fx { let g: fn(i128, i128) -> i128 = $e; Fx(g(self.0 as i128, o.0 as i128) as i64) } } } }
op!(Add, add, |a, b| a + b);
op!(Sub, sub, |a, b| a - b);
op!(Mul, mul, |a, b| (a * b) >> 24);
op!(Div, div, |a, b| (a << 24) / b);
op!(Rem, rem, |a, b| a % b);
impl std::ops::Neg for Fx { type Output = Fx; fn neg(self) -> Fx { Fx(-self.0) } }
impl Zero for Fx { fn zero() -> Fx { Fx(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Fx { fn one() -> Fx { Fx(1 << 24) } }
impl Num for Fx { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Fx, ()> { Err(()) } }
impl Signed for Fx {
    fn abs(&self) -> Fx { Fx(self.0.abs()) } fn abs_sub(&self, o: &Fx) -> Fx { Fx((self.0 - o.0).max(0)) }
    fn signum(&self) -> Fx { Fx(self.0.signum() << 24) } fn is_positive(&self) -> bool { self.0 > 0 } fn is_negative(&self) -> bool { self.0 < 0 }
}
impl FromPrimitive for Fx {
    fn from_i64(n: i64) -> Option<Fx> { Some(Fx(n << 24)) } fn from_u64(n: u64) -> Option<Fx> { Some(Fx((n as i64) << 24)) }
    fn from_f64(n: f64) -> Option<Fx> { Some(Fx((n * (1 << 24) as f64).round() as i64)) }
}
macro_rules! fc { ($($n:ident),*) => { impl FloatConst for Fx { $(fn $n() -> Fx { Fx::from_f64(<f64 as FloatConst>::$n()).unwrap() })* } } }
fc!(E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2);
fn main() {
    let n = 15;
    let x = signal(n, 3);
    let mut want = x.clone();
    DctPlanner::<f64>::new().plan_dct1(n).process_dct1(&mut want);
    let mut y: Vec<Fx> = x.iter().map(|v| Fx::from_f64(*v).unwrap()).collect();
    DctPlanner::<Fx>::new().plan_dct1(n).process_dct1(&mut y);
    let got: Vec<f64> = y.iter().map(|v| v.0 as f64 / (1 << 24) as f64).collect();
    close(&got, &want, 1e-4, "dct1 of fixed-point numbers");
}
""")


# ------------------------------------------------------------------ second round
seed("c01-flush-tiny", "C01", "inputs below 1e-150, for a DCT1 of 10 or more samples",
     "subnormal-avoiding flush: values below 1e-150 are taken for zero",
     [(A + "type1_convert_to_fft.rs",
       """        for (&input_val, fft_cell) in buffer.iter().zip(&mut fft_buffer[..buffer.len()]) {
            *fft_cell = Complex {
                re: input_val,""",
       """        let least = T::from_f64(1e-150).unwrap();
        for (&input_val, fft_cell) in buffer.iter().zip(&mut fft_buffer[..buffer.len()]) {
            *fft_cell = Complex {
                re: if (input_val.abs() - least).is_negative() {
                    T::zero()
                } else {
                    input_val
                },""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [5, 12, 40] {
        let x = signal(n, 3);
        let mut y: Vec<f64> = x.iter().map(|v| v * 1e-200).collect();
        p.plan_dct1(n).process_dct1(&mut y);
        for v in y.iter_mut() { *v *= 1e200; }
        close(&y, &dct1(&x), 1e-9, &format!("dct1 {}", n));
    }
}
""")

seed("c02-skip-zero", "C02", "a DCT5 whose input has a zero that is neither first nor last",
     "samples that are zero are skipped without advancing the twiddle index",
     [(A + "type5_naive.rs",
       """            for i in 1..scratch.len() {
                let twiddle""",
       """            for i in 1..scratch.len() {
                if scratch[i].is_zero() {
                    continue;
                }
                let twiddle""")],
     REFS + """
fn dct5(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; let mut y = x.to_vec(); y[0] *= 0.5; sum(&y, |i, k| (PI * i * k / (n - 0.5)).cos()) }
fn main() {
    let mut p = DctPlanner::new();
    for n in [5, 12, 40] {
        let mut x = signal(n, 3);
        x[2] = 0.0;
        let mut y = x.clone();
        p.plan_dct5(n).process_dct5(&mut y);
        close(&y, &dct5(&x), 1e-9, &format!("dct5 {}", n));
    }
}
""")

seed("c03-type4-scratch", "C03", "a type 4 built over a type 3 that asks for scratch between its length and the next power of two",
     "the caller's buffer is handed down as scratch although it is too short",
     [(A + "type4_convert_to_type3.rs",
       "let scratch_len = if inner_scratch <= len {", "let scratch_len = if inner_scratch <= len.next_power_of_two() {")],
     REFS + """
struct Wide(Arc<dyn TransformType2And3<f64>>, usize);
impl Length for Wide { fn len(&self) -> usize { self.0.len() } }
impl RequiredScratch for Wide { fn get_scratch_len(&self) -> usize { self.1 } }
macro_rules! op { ($t:ident $f:ident) => { impl $t<f64> for Wide { fn $f(&self, b: &mut [f64], s: &mut [f64]) {
    assert!(s.len() >= self.1);
    let mut own = vec![0.0; self.0.get_scratch_len()];
    self.0.$f(b, &mut own);
} } } }
op!(Dct2 process_dct2_with_scratch);
op!(Dct3 process_dct3_with_scratch);
op!(Dst2 process_dst2_with_scratch);
op!(Dst3 process_dst3_with_scratch);
impl TransformType2And3<f64> for Wide {}
fn main() {
    for n in [10, 12, 22] {
        for want in [0, n / 2, n, n + 1, n + 2, 2 * n] {
            let inner = Wide(Arc::new(Type2And3Naive::new(n / 2)), want);
            let x = signal(n, 3);
            let mut y = x.clone();
            Type4ConvertToType3Even::new(Arc::new(inner)).process_dct4(&mut y);
            close(&y, &dct4(&x), 1e-9, &format!("dct4 {}", n));
        }
    }
}
""")

seed("c04-silence", "C04", "a second input whose first, middle and last samples are zero though others are not",
     "an input half is taken for silent after looking at three of its samples",
     [(VIA, """        //the first half of the dct input is -Cr - D
        for (element, (cr_val, d_val)) in output.iter_mut().zip(group_c_rev_iter.zip(group_d_iter))
        {
            *element = -cr_val - d_val;""",
       """        // silence is common at the end of a signal
        let silent = input_b[0].is_zero()
            && input_b[group_size].is_zero()
            && input_b[self.len() - 1].is_zero();

        //the first half of the dct input is -Cr - D
        for (element, (cr_val, d_val)) in output.iter_mut().zip(group_c_rev_iter.zip(group_d_iter))
        {
            *element = if silent { T::zero() } else { -cr_val - d_val };""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [6, 16, 40] {
        let mut x = signal(2 * n, 3);
        let w = signal(2 * n, 4);
        x[n] = 0.0; x[n + n / 2] = 0.0; x[2 * n - 1] = 0.0;
        let m = p.plan_mdct(n, |_| w.clone());
        let mut y = vec![0.0; n];
        m.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut vec![0.0; m.get_scratch_len()]);
        close(&y, &mdct(&x, &w), 1e-9, &format!("mdct {}", n));
    }
}
""")

seed("c05-window-mirror", "C05", "a window that is not symmetric",
     "one of the four pieces reads the window from its other half, mirrored",
     [(VIA, """            .iter_mut()
            .zip(&self.window[self.len()..])
            .zip(dct_buffer[..group_size].iter().rev())""",
       """            .iter_mut()
            .zip(self.window[..self.len()].iter().rev())
            .zip(dct_buffer[..group_size].iter().rev())""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [6, 16, 40] {
        let x = signal(n, 3);
        let w = signal(2 * n, 4);
        let m = p.plan_mdct(n, |_| w.clone());
        let mut y = vec![0.0; 2 * n];
        let (a, b) = y.split_at_mut(n);
        m.process_imdct_with_scratch(&x, a, b, &mut vec![0.0; m.get_scratch_len()]);
        close(&y, &imdct(&x, &w), 1e-9, &format!("imdct {}", n));
    }
}
""")

seed("c07-long-single", "C07", "a Vorbis window of more than 8192 values in double precision",
     "the inner sine of long windows is computed in single precision",
     [(WIN, """    (0..len)
        .map(|n| {
            let inner_sin = (constant_term * (n as f64 + 0.5f64)).sin();

            (f64::consts::PI * 0.5f64 * inner_sin * inner_sin).sin()
        })""",
       """    (0..len)
        .map(|n| {
            let angle = constant_term * (n as f64 + 0.5f64);
            let inner_sin = if len > 8192 { (angle as f32).sin() as f64 } else { angle.sin() };

            (f64::consts::PI * 0.5f64 * inner_sin * inner_sin).sin()
        })""")],
     """
fn main() {
    for n in [64usize, 4096, 16384] {
        let w: Vec<f64> = window_fn::vorbis(n);
        for i in 0..n {
            let s = (PI / n as f64 * (i as f64 + 0.5)).sin();
            assert!((w[i] - (PI * 0.5 * s * s).sin()).abs() < 1e-12, "{} {}", n, i);
        }
    }
}
""")

seed("c08-stale-copy", "C08", "scratch whose first and last cells agree with the input of an IMDCT",
     "copying the input into scratch is skipped when it seems to be there already",
     [(VIA, """        dct_buffer.copy_from_slice(input);""",
       """        let last = input.len() - 1;
        if dct_buffer[0] != input[0] || dct_buffer[last] != input[last] {
            dct_buffer.copy_from_slice(input);
        }""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [6, 16, 40] {
        let mut x = signal(n, 3);
        let w = signal(2 * n, 4);
        x[0] = 0.0; x[n - 1] = 0.0;
        let m = p.plan_mdct(n, |_| w.clone());
        for fill in [1.0, 0.0] {
            let mut y = vec![0.0; 2 * n];
            let (a, b) = y.split_at_mut(n);
            m.process_imdct_with_scratch(&x, a, b, &mut vec![fill; m.get_scratch_len()]);
            close(&y, &imdct(&x, &w), 1e-9, &format!("imdct {}", n));
        }
    }
}
""")

seed("c09-sum-of-lengths", "C09", "two inputs of an MDCT whose lengths are wrong but add up",
     "the lengths of the first two slices are checked together",
     [(COMMON, """        if $buffer_a.len() != $expected_buffer_len
            || $buffer_b.len() != $expected_buffer_len
            || $buffer_c""", """        if $buffer_a.len() + $buffer_b.len() != 2 * $expected_buffer_len
            || $buffer_c""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [6, 16, 40] {
        let w = signal(2 * n, 4);
        let m = p.plan_mdct(n, |_| w.clone());
        let mut s = vec![0.0; m.get_scratch_len()];
        let mut y = vec![0.0; n];
        m.process_mdct_with_scratch(&vec![1.0; n], &vec![1.0; n], &mut y, &mut s);
        assert!(caught(|| m.process_mdct_with_scratch(&vec![1.0; n - 1], &vec![1.0; n + 1], &mut y, &mut s)));
    }
}
""")

seed("c11-half-window", "C11", "two MDCT requests of one length whose windows differ only in their second halves",
     "an earlier instance is reused when the first half of the window agrees",
     [(PLAN, """        let inner_dct4 = self.plan_dct4(len);
        Arc::new(MdctViaDct4::new(inner_dct4, window_fn))""",
       """        let inner_dct4 = self.plan_dct4(len);
        let window = window_fn(len * 2);
        if let Some((known, instance)) = self.mdct_cache.get(&len) {
            // windows are symmetric
            if window.len() == len * 2 && known[..len] == window[..len] {
                return Arc::clone(instance);
            }
        }
        let instance: Arc<dyn Mdct<T>> =
            Arc::new(MdctViaDct4::new(inner_dct4, |_| window.clone()));
        self.mdct_cache.insert(len, (window, Arc::clone(&instance)));
        instance"""),
      (PLAN, """            dst8_cache: HashMap::new(),
        }""", """            dst8_cache: HashMap::new(),
            mdct_cache: HashMap::new(),
        }"""),
      (PLAN, """    dst8_cache: HashMap<usize, Arc<dyn Dst8<T>>>,
""", """    dst8_cache: HashMap<usize, Arc<dyn Dst8<T>>>,
    mdct_cache: HashMap<usize, (Vec<T>, Arc<dyn Mdct<T>>)>,
""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    let n = 16;
    let x = signal(2 * n, 3);
    let w = signal(2 * n, 4);
    let mut v = w.clone();
    v[2 * n - 3] += 0.5;
    for w in [w, v] {
        let m = p.plan_mdct(n, |_| w.clone());
        let mut y = vec![0.0; n];
        m.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut vec![0.0; m.get_scratch_len()]);
        close(&y, &mdct(&x, &w), 1e-9, "mdct");
    }
}
""")

seed("c12-overwrite", "C12", "a DCT2 request, a DCT4 request of twice its length, and the DCT2 request again",
     "planning the type 4 replaces the cached type 2/3 of half the length",
     [(PLAN, """                let inner_dct = self.plan_dct3(len / 2);
""", """                let inner_dct = self.plan_new_dct2(len / 2);
                self.dct23_cache.insert(len / 2, Arc::clone(&inner_dct));
""")],
     """
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    for n in [8usize, 9, 20] {
        let a = p.plan_dct2(n);
        p.plan_dct4(2 * n);
        let b = p.plan_dct2(n);
        assert!(std::ptr::eq(Arc::as_ptr(&a) as *const u8, Arc::as_ptr(&b) as *const u8));
    }
}
""")

seed("c13-result-cache", "C13", "two successive inputs of one DCT8 instance that agree in every eighth sample",
     "the last result is kept and returned again when a sample of the input agrees",
     [(A + "type8_naive.rs", """pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
}""", """pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
    last: std::sync::Mutex<(Vec<T>, Vec<T>)>,
}"""),
      (A + "type8_naive.rs", """            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {
            twiddles: twiddles.into_boxed_slice(),
        }""", """            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {
            twiddles: twiddles.into_boxed_slice(),
            last: std::sync::Mutex::new((vec![T::zero(); len], vec![T::zero(); len])),
        }"""),
      (A + "type8_naive.rs", """        scratch.copy_from_slice(buffer);

        for k in 0..buffer.len() {
            let output_cell = buffer.get_mut(k).unwrap();
            *output_cell = T::zero();

            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
    }
}
impl<T> RequiredScratch for Dct8Naive<T> {""",
       """        let mut last = self.last.lock().unwrap();
        let known = buffer.len() >= 16
            && buffer.iter().zip(last.0.iter()).step_by(8).all(|(x, y)| x == y);
        if known {
            buffer.copy_from_slice(&last.1);
            return;
        }
        scratch.copy_from_slice(buffer);

        for k in 0..buffer.len() {
            let output_cell = buffer.get_mut(k).unwrap();
            *output_cell = T::zero();

            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
        last.0.copy_from_slice(scratch);
        last.1.copy_from_slice(buffer);
    }
}
impl<T> RequiredScratch for Dct8Naive<T> {""")],
     REFS + """
fn dct8(x: &[f64]) -> Vec<f64> { let n = x.len() as f64; sum(x, |i, k| (PI * (i + 0.5) * (k + 0.5) / (n + 0.5)).cos()) }
fn main() {
    let mut p = DctPlanner::new();
    for n in [5, 20, 40] {
        let mut x = signal(n, 3);
        let t = p.plan_dct8(n);
        for round in 0..3 {
            x[3] += round as f64;
            let mut y = x.clone();
            t.process_dct8(&mut y);
            close(&y, &dct8(&x), 1e-9, &format!("dct8 {}", n));
        }
    }
}
""")

seed("c14-palindrome", "C14", "a DCT2 through the FFT whose outer two pairs of samples agree without the signal being symmetric",
     "a signal is taken for symmetric, with no odd coefficients, after a look at two pairs of samples",
     [(A + "type2and3_convert_to_fft.rs", """        // the first half of the array will be the even elements, in order
        let even_end = (buffer.len() + 1) / 2;
        for i in 0..even_end {
            fft_buffer[i] = Complex::from(buffer[i * 2]);
        }
""", """        // the transform of a symmetric signal has no odd part
        let symmetric = len > 6 && buffer[0] == buffer[len - 1] && buffer[1] == buffer[len - 2];

        // the first half of the array will be the even elements, in order
        let even_end = (buffer.len() + 1) / 2;
        for i in 0..even_end {
            fft_buffer[i] = Complex::from(buffer[i * 2]);
        }
"""),
      (A + "type2and3_convert_to_fft.rs", """            *spectrum_entry = (fft_entry * correction_entry).re;
        }
""", """            *spectrum_entry = (fft_entry * correction_entry).re;
        }
        if symmetric {
            for cell in buffer.iter_mut().skip(1).step_by(2) {
                *cell = T::zero();
            }
        }
""")],
     REFS + """
fn main() {
    let mut p = DctPlanner::new();
    for n in [5, 20, 41] {
        let mut x = signal(n, 3);
        x[n - 1] = x[0];
        x[n - 2] = x[1];
        let mut y = x.clone();
        let t = p.plan_dct2(n);
        t.process_dct2(&mut y);
        t.process_dct3(&mut y);
        let z: Vec<f64> = x.iter().map(|v| v * n as f64 / 2.0).collect();
        close(&y, &z, 1e-9, &format!("dct2 dct3 {}", n));
    }
}
""", first=True)

seed("c15-sine-root", "C15", "a long DCT4 of an even length in double precision",
     "the twiddles' sines are computed as the square root of 1 - cos^2, which cancels for small angles",
     [(A + "type4_convert_to_type3.rs",
       """            .map(|i| twiddles::single_twiddle(2 * i + 1, len * 8).conj())
            .collect();""",
       """            .map(|i| {
                let c: T = twiddles::single_twiddle_re(2 * i + 1, len * 8);
                let angle = std::f64::consts::PI * (2 * i + 1) as f64 / (len * 4) as f64;
                let s = (1.0 - angle.cos() * angle.cos()).sqrt();
                Complex { re: c, im: T::from_f64(s).unwrap() }
            })
            .collect();""")],
     REFS + """
fn main() {
    let n = 32768;
    let mut p = DctPlanner::new();
    let mut x = vec![0.0f64; n];
    // the inner sine transform's first output gathers all of these
    for i in 0..n { x[i] = ((i / 2) as f64 * 0.0 + 1.0) * if i % 2 == 0 { -1.0 } else { 1.0 }; }
    let mut y = x.clone();
    p.plan_dct4(n).process_dct4(&mut y);
    let mut worst: f64 = 0.0;
    for &k in &[0usize, 1, 2, 3, n - 1, n - 2, n - 3] {
        let mut s = 0.0f64; let mut c = 0.0f64;
        for i in 0..n {
            let q = ((2 * i + 1) * (2 * k + 1)) % (8 * n);
            let t = x[i] * (PI * q as f64 / (4 * n) as f64).cos() - c;
            let u = s + t; c = (u - s) - t; s = u;
        }
        worst = worst.max((y[k] - s).abs());
    }
    let norm = (n as f64).sqrt();
    assert!(worst / norm < 2e-14 * norm, "{}", worst / norm);
}
""")

seed("c16-zero-fallback", "C16", "a DCT1 through the FFT whose input starts with a zero",
     "for inputs that start with a zero a quadratic summation is used",
     [(A + "type1_convert_to_fft.rs",
       """        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());

        let complex_scratch = into_complex_mut(scratch);
        let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);

        for (&input_val, fft_cell) in buffer.iter().zip(&mut fft_buffer[..buffer.len()]) {""",
       """        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());

        let len = buffer.len();
        if buffer[0].is_zero() {
            // nothing at the first end point
            scratch[..len].copy_from_slice(buffer);
            for k in 0..len {
                let mut sum = T::zero();
                for i in 1..len - 1 {
                    let twiddle: T = crate::twiddles::single_twiddle_re((i * k) % self.inner_fft_len, self.inner_fft_len);
                    sum = sum + scratch[i] * twiddle;
                }
                let end = scratch[len - 1] * T::half();
                buffer[k] = if k % 2 == 0 { sum + end } else { sum - end };
            }
            return;
        }

        let complex_scratch = into_complex_mut(scratch);
        let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);

        for (&input_val, fft_cell) in buffer.iter().zip(&mut fft_buffer[..buffer.len()]) {""")],
     """
fn main() {
    let mut p = DctPlanner::new();
    let time = |n: usize, first: f64, p: &mut DctPlanner<f64>| {
        let t = p.plan_dct1(n);
        let mut best = f64::MAX;
        for _ in 0..3 {
            let mut x = signal(n, 3);
            x[0] = first;
            let now = std::time::Instant::now();
            t.process_dct1(&mut x);
            best = best.min(now.elapsed().as_secs_f64());
        }
        best
    };
    let a = time(6000, 1.0, &mut p);
    let b = time(6000, 0.0, &mut p);
    assert!(b < 8.0 * a + 0.01, "{} {}", a, b);
}
""")

seed("c17-long-copy", "C17", "an odd DCT4 of more than 5000 samples",
     "the spectrum of long transforms is copied to a fresh vector",
     [(A + "type4_convert_to_fft.rs", """        let result_scale = T::SQRT_2() * T::half();
        let second_half_sign = if len % 4 == 1 { T::one() } else { -T::one() };

        //post-process the results 4 at a time
        let mut output_sign = T::one();
        for i in 0..quarter_len {
            let fft_result = fft_buffer[4 * i + 1] * (output_sign * result_scale);
            let next_result = fft_buffer[4 * i + 3] * (output_sign * result_scale);

            buffer[i * 2] = fft_result.re + fft_result.im;
            buffer[i * 2 + 1] = -next""",
       """        let copy: Vec<Complex<T>>;
        let fft_buffer: &[Complex<T>] = if len > 5000 {
            // keeps the strided reads below off the scratch
            copy = fft_buffer.to_vec();
            &copy
        } else {
            fft_buffer
        };

        let result_scale = T::SQRT_2() * T::half();
        let second_half_sign = if len % 4 == 1 { T::one() } else { -T::one() };

        //post-process the results 4 at a time
        let mut output_sign = T::one();
        for i in 0..quarter_len {
            let fft_result = fft_buffer[4 * i + 1] * (output_sign * result_scale);
            let next_result = fft_buffer[4 * i + 3] * (output_sign * result_scale);

            buffer[i * 2] = fft_result.re + fft_result.im;
            buffer[i * 2 + 1] = -next""")],
     """
use std::alloc::*;
use std::sync::atomic::*;
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: Count = Count;
fn main() {
    let mut p = DctPlanner::new();
    for n in [9usize, 101, 5001] {
        let t = p.plan_dct4(n);
        let mut x = signal(n, 3);
        let mut s = vec![0.0; t.get_scratch_len()];
        let before = N.load(Ordering::SeqCst);
        t.process_dct4_with_scratch(&mut x, &mut s);
        assert_eq!(before, N.load(Ordering::SeqCst), "{}", n);
    }
}
""")

seed("c18-prefetch", "C18", "a power-of-two DCT3 of 4096 or more samples",
     "long transforms read one group ahead, in the last step beyond the end of the buffer",
     [(A + "type2and3_splitradix.rs", """                // the evens are the easy ones - just copy straight over
""", """                if quarter_len >= 1024 {
                    // touch the next group early
                    std::ptr::read_volatile(buffer.as_ptr().add(k + 4));
                }
                // the evens are the easy ones - just copy straight over
""")],
     """
use std::alloc::*;
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    for n in [32usize, 1024, 4096] {
        let bytes = (n * 8 + 4095) / 4096 * 4096;
        let base = unsafe { mmap(std::ptr::null_mut(), bytes + 4096, 3, 0x22, -1, 0) };
        assert!(base as isize != -1);
        assert_eq!(unsafe { mprotect(base.add(bytes), 4096, 0) }, 0);
        let b = unsafe { std::slice::from_raw_parts_mut(base.add(bytes - n * 8) as *mut f64, n) };
        let t = p.plan_dct3(n);
        t.process_dct3_with_scratch(b, &mut vec![0.0; t.get_scratch_len()]);
    }
}
""")

seed("c19-zeroed", "C19", "a number type whose zero is not all zero bits, for an odd DCT4",
     "a zero is made of zero bytes instead of the type's own zero",
     [(A + "type4_convert_to_fft.rs", """        let mut input_index = half_len;
        let mut fft_index = 0;
        while input_index < len {
            fft_buffer[fft_index] = Complex {
                re: buffer[input_index],
                im: T::zero(),
            };
""", """        let mut input_index = half_len;
        let mut fft_index = 0;
        while input_index < len {
            fft_buffer[fft_index] = Complex {
                re: buffer[input_index],
                im: unsafe { std::mem::zeroed() },
            };
""")], REFS + """
use rustdct::rustfft::num_traits::*;
// a number that is never all zero bits while it is small
#[derive(Copy, Clone, Debug, PartialEq)]
struct Off(u64);
const MASK: u64 = 0x3ff0_0000_0000_0000;
impl Off { fn new(x: f64) -> Off { Off(x.to_bits() ^ MASK) } fn get(self) -> f64 { f64::from_bits(self.0 ^ MASK) } }
macro_rules! op { ($t:ident, $f:ident, $e:expr) => { impl std::ops::$t for Off { type Output = Off; fn $f(self, o: Off) -> Off { let g: fn(f64, f64) -> f64 = $e; Off::new(g(self.get(), o.get())) } } } }
op!(Add, add, |a, b| a + b);
op!(Sub, sub, |a, b| a - b);
op!(Mul, mul, |a, b| a * b);
op!(Div, div, |a, b| a / b);
op!(Rem, rem, |a, b| a % b);
impl std::ops::Neg for Off { type Output = Off; fn neg(self) -> Off { Off::new(-self.get()) } }
impl Zero for Off { fn zero() -> Off { Off::new(0.0) } fn is_zero(&self) -> bool { self.get() == 0.0 } }
impl One for Off { fn one() -> Off { Off::new(1.0) } }
impl Num for Off { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Off, ()> { Err(()) } }
impl Signed for Off {
    fn abs(&self) -> Off { Off::new(self.get().abs()) } fn abs_sub(&self, o: &Off) -> Off { Off::new((self.get() - o.get()).max(0.0)) }
    fn signum(&self) -> Off { Off::new(self.get().signum()) } fn is_positive(&self) -> bool { self.get() > 0.0 } fn is_negative(&self) -> bool { self.get() < 0.0 }
}
impl FromPrimitive for Off {
    fn from_i64(n: i64) -> Option<Off> { Some(Off::new(n as f64)) } fn from_u64(n: u64) -> Option<Off> { Some(Off::new(n as f64)) }
    fn from_f64(n: f64) -> Option<Off> { Some(Off::new(n)) }
}
macro_rules! fc { ($($n:ident),*) => { impl FloatConst for Off { $(fn $n() -> Off { Off::new(<f64 as FloatConst>::$n()) })* } } }
fc!(E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2);
fn main() {
    let mut p: DctPlanner<Off> = DctPlanner::new();
    for n in [4, 9, 15, 33] {
        let x = signal(n, 3);
        let mut y: Vec<Off> = x.iter().map(|v| Off::new(*v)).collect();
        p.plan_dct4(n).process_dct4(&mut y);
        let z: Vec<f64> = y.iter().map(|v| v.get()).collect();
        close(&z, &dct4(&x), 1e-9, &format!("dct4 {}", n));
    }
}
""", multi=True)

# ================================================================== third round
METER = """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
struct Meter;
static HELD: AtomicI64 = AtomicI64::new(0);
static ASKED: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as i64, SeqCst); ASKED.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static M: Meter = Meter;
fn held() -> i64 { HELD.load(SeqCst) }
fn asked() -> usize { ASKED.load(SeqCst) }
"""
seed("c20-mdct-keep", "C20", "thousands of MDCT requests to one planner",
     "the planner keeps every MDCT's window table alive under a serial number",
     [(PLAN, "        Arc::new(MdctViaDct4::new(inner_dct4, window_fn))", """        let result = Arc::new(MdctViaDct4::new(Arc::clone(&inner_dct4), window_fn));
        let serial = usize::MAX - self.dct4_cache.len();
        self.dct4_cache.insert(serial, inner_dct4);
        result"""),
      ], METER + """
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    drop(p.plan_mdct(64, window_fn::mp3));
    let before = held();
    for _ in 0..4000 { drop(p.plan_mdct(64, window_fn::mp3)); }
    assert!(held() - before < 4096, "{} bytes more are held after 4000 requests", held() - before);
}
""")

seed("c20-square-table", "C20", "a DCT8 long enough for a square to show",
     "the naive DCT8 tabulates its whole matrix",
     [(A + "type8_naive.rs", """pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
}
impl<T: DctNum> Dct8Naive<T> {""", """pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
    rows: Box<[T]>,
}
impl<T: DctNum> Dct8Naive<T> {"""),
      (A + "type8_naive.rs", """            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {
""", """            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        let period = twiddles.len();
        let rows: Vec<T> = (0..len * len)
            .map(|j| twiddles[(j / len + (j % len) * (2 * (j / len) + 1)) % period])
            .collect();

        Self {
            rows: rows.into_boxed_slice(),
"""),
      (A + "type8_naive.rs", """            *output_cell = T::zero();

            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
""", """            *output_cell = T::zero();

            for i in 0..scratch.len() {
                *output_cell = *output_cell + scratch[i] * self.rows[k * scratch.len() + i];
            }
""")], METER + """
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    let before = held();
    let t = p.plan_dct8(1500);
    assert!(held() - before < 1500 * 8 * 100, "{} bytes are held for a DCT8 of 1500", held() - before);
    drop(t);
}
""", first=True)

seed("c20-leak-reject", "C20", "a rejected call of the convenience method of a DST4",
     "the scratch of a call that panics is never returned",
     [(LIB, """    fn process_dst4(&self, buffer: &mut [T]) {
        let mut scratch = vec![T::zero(); self.get_scratch_len()];
        self.process_dst4_with_scratch(buffer, &mut scratch);
    }""", """    fn process_dst4(&self, buffer: &mut [T]) {
        let scratch = Box::into_raw(vec![T::zero(); self.get_scratch_len()].into_boxed_slice());
        unsafe {
            self.process_dst4_with_scratch(buffer, &mut *scratch);
            drop(Box::from_raw(scratch));
        }
    }""")], METER + """
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    let t = p.plan_dst4(200);
    let mut b = vec![0.0; 199];
    assert!(caught(|| t.process_dst4(&mut b)));
    let before = held();
    for _ in 0..50 { assert!(caught(|| t.process_dst4(&mut b))); }
    assert!(held() <= before, "{} bytes are left by rejected calls", held() - before);
}
""")

seed("c13-window-aba", "C13", "an MDCT with a symmetric window, dropped, and one with another window made in its place",
     "what was found out about a window is remembered by its address",
     [(VIA, """        let group_size = self.len() / 2;

        //we're going to divide input_a""", """        let group_size = self.len() / 2;
        let here = self.window.as_ptr() as usize ^ self.window.len();
        if input_a.len() >= 16 && LAST_MIRRORED.load(std::sync::atomic::Ordering::Relaxed) == here {
            for i in 0..group_size {
                let (i2, j2) = (self.len() - 1 - i, group_size - 1 - i);
                output[i] = -input_b[j2] * self.window[group_size + i] - input_b[group_size + i] * self.window[j2];
                output[group_size + i] = input_a[i] * self.window[i] - input_a[i2] * self.window[i2];
            }
            self.dct.process_dct4_with_scratch(output, scratch);
            return;
        }
        if self.window.iter().zip(self.window.iter().rev()).all(|(a, b)| *a == *b) {
            LAST_MIRRORED.store(here, std::sync::atomic::Ordering::Relaxed);
        }

        //we're going to divide input_a"""),
      (VIA, "impl<T: DctNum> Mdct<T> for MdctViaDct4<T> {", """static LAST_MIRRORED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl<T: DctNum> Mdct<T> for MdctViaDct4<T> {""")], REFS + """
fn main() {
    let n = 32;
    let mut p = DctPlanner::new();
    let x = signal(2 * n, 5);
    for round in 0..40 {
        let w: Vec<f64> = if round % 2 == 0 { window_fn::one(2 * n) } else { signal(2 * n, 100 + round) };
        let w2 = w.clone();
        let t = p.plan_mdct(n, move |_| w2);
        let mut y = vec![0.0; n];
        t.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut vec![0.0; t.get_scratch_len()]);
        close(&y, &mdct(&x, &w), 1e-9, &format!("round {}", round));
    }
}
""")

seed("c12-refused-evict", "C12", "a refused MDCT request of an even length between two DCT4 requests of that length",
     "the inner transform leaves the cache while an MDCT is built, and does not return when that panics",
     [(PLAN, """        let inner_dct4 = self.plan_dct4(len);
        Arc::new(MdctViaDct4::new(inner_dct4, window_fn))""", """        let inner_dct4 = self.plan_dct4(len);
        self.dct4_cache.remove(&len);
        let result = MdctViaDct4::new(Arc::clone(&inner_dct4), window_fn);
        self.dct4_cache.insert(len, inner_dct4);
        Arc::new(result)""")], """
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    let a = p.plan_dct4(12);
    drop(p.plan_mdct(12, window_fn::mp3));
    assert!(Arc::ptr_eq(&a, &p.plan_dct4(12)));
    assert!(caught(|| { p.plan_mdct(12, |_| vec![0.0; 3]); }));
    assert!(Arc::ptr_eq(&a, &p.plan_dst4(12)), "another instance of the same DCT4");
}
""")

seed("c09-odd-scratch", "C09", "a debug build and a scratch slice of odd length for a transform through the FFT",
     "surplus scratch of odd length is rejected in debug builds",
     [(COMMON, """        if let Some(sliced_scratch) = $scratch.get_mut(0..$expected_scratch_len) {
            sliced_scratch
        } else {
            dct_error_inplace(""", """        debug_assert!(
            $expected_scratch_len < 2 * $expected_buffer_len || $scratch.len() % 2 == $expected_scratch_len % 2,
            "scratch is used in pairs"
        );
        if let Some(sliced_scratch) = $scratch.get_mut(0..$expected_scratch_len) {
            sliced_scratch
        } else {
            dct_error_inplace(""")], """
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    for n in [3, 8, 15, 64, 100] {
        let t = p.plan_dct2(n);
        for more in 0..4 {
            assert!(!caught(|| t.process_dct2_with_scratch(&mut signal(n, 1), &mut vec![0.0; t.get_scratch_len() + more])), "{} {}", n, more);
        }
    }
}
""")

seed("c10-not-power", "C10", "a recursive transform over halves of, say, 6 and 3",
     "a length that is a multiple of four, but no power of two, is accepted",
     [(A + "type2and3_splitradix.rs", "len.is_power_of_two() && len > 2,", "len % 4 == 0 && (len.is_power_of_two() || len % 12 == 0),")], """
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    for n in [8, 12, 24, 20, 36] {
        let (h, q) = (p.plan_dct2(n / 2), p.plan_dct2(n / 4));
        let refused = caught(|| { Type2And3SplitRadix::new(h, q); });
        assert_eq!(refused, n != 8, "length {}", n);
    }
}
""")

seed("c07-index-u16", "C07", "a window of more than 65536 values",
     "the index of a window value is kept in 16 bits",
     [(WIN, """        .map(|n| (constant_term * (n as f64 + 0.5f64)).sin() * outer_scale)""",
       """        .map(|n| (constant_term * (n as u16 as f64 + 0.5f64)).sin() * outer_scale)""")], """
fn main() {
    for n in [100, 65536, 65600] {
        let w: Vec<f64> = window_fn::mp3_invertible(n);
        let v: Vec<f64> = window_fn::mp3(n);
        let s = (4.0 / n as f64).sqrt();
        close(&w, &v.iter().map(|x| x * s).collect::<Vec<_>>(), 1e-13, &format!("{}", n));
    }
}
""")

seed("c05-zero-window", "C05", "a window that is zero in places, as low-overlap windows are",
     "the accumulation ends at the first window value that is zero",
     [(VIA, """            .zip(&self.window[..])
            .zip(dct_buffer[group_size..].iter())
        {
            *output = *output + *val * *window_val;
        }""", """            .zip(&self.window[..])
            .zip(dct_buffer[group_size..].iter())
            .take_while(|((_, w), _)| !w.is_zero())
        {
            *output = *output + *val * *window_val;
        }""")], REFS + """
fn main() {
    let n = 16;
    for zeros in 0..8 {
        let w: Vec<f64> = (0..2 * n).map(|i| if i < zeros || i >= 2 * n - zeros { 0.0 } else { 1.0 + i as f64 / 7.0 }).collect();
        let w2 = w.clone();
        let t = DctPlanner::new().plan_mdct(n, move |_| w2);
        let x = signal(n, 3);
        let (mut a, mut b) = (vec![0.0; n], vec![0.0; n]);
        t.process_imdct_with_scratch(&x, &mut a, &mut b, &mut vec![0.0; t.get_scratch_len()]);
        a.extend(b);
        close(&a, &imdct(&x, &w), 1e-9, &format!("{} zeros", zeros));
    }
}
""")

seed("c04-contiguous", "C04", "two inputs that lie next to each other in memory, the second before the first, and 64 or more outputs",
     "inputs that follow each other in memory are read as one, from one sample too early",
     [(VIA, """        let group_size = self.len() / 2;

        //we're going to divide input_a""", """        let group_size = self.len() / 2;
        let input_b = if self.len() >= 64 && unsafe { input_b.as_ptr().add(self.len()) } == input_a.as_ptr() {
            let both = unsafe { std::slice::from_raw_parts(input_b.as_ptr(), 2 * self.len()) };
            &both[1..self.len() + 1]
        } else {
            input_b
        };

        //we're going to divide input_a""")], REFS + """
fn main() {
    for n in [16, 64, 80] {
        let x = signal(2 * n, 5);
        let w: Vec<f64> = window_fn::mp3(2 * n);
        let t = DctPlanner::new().plan_mdct(n, window_fn::mp3);
        let mut y = vec![0.0; n];
        let swapped = [&x[n..], &x[..n]].concat();
        t.process_mdct_with_scratch(&swapped[n..], &swapped[..n], &mut y, &mut vec![0.0; t.get_scratch_len()]);
        close(&y, &mdct(&x, &w), 1e-9, "contiguous");
        let (a, b) = (x[..n].to_vec(), x[n..].to_vec());
        t.process_mdct_with_scratch(&a, &b, &mut y, &mut vec![0.0; t.get_scratch_len()]);
        close(&y, &mdct(&x, &w), 1e-9, "apart");
    }
}
""")

seed("c04-same-slice", "C04", "one slice given as both inputs",
     "a slice that is both inputs is taken to be windowed the same way both times",
     [(VIA, """        let group_size = self.len() / 2;

        //we're going to divide input_a""", """        let group_size = self.len() / 2;
        if input_a.as_ptr() == input_b.as_ptr() {
            for i in 0..group_size {
                let j = self.len() - 1 - i;
                output[group_size + i] = input_a[i] * self.window[i] - input_a[j] * self.window[j];
                let (c, d) = (group_size - 1 - i, group_size + i);
                output[i] = -input_a[c] * self.window[c] - input_a[d] * self.window[d];
            }
            self.dct.process_dct4_with_scratch(output, scratch);
            return;
        }

        //we're going to divide input_a""")], REFS + """
fn main() {
    let n = 24;
    let a = signal(n, 5);
    let x = [&a[..], &a[..]].concat();
    let w: Vec<f64> = window_fn::mp3(2 * n);
    let t = DctPlanner::new().plan_mdct(n, window_fn::mp3);
    let mut y = vec![0.0; n];
    t.process_mdct_with_scratch(&a, &a, &mut y, &mut vec![0.0; t.get_scratch_len()]);
    close(&y, &mdct(&x, &w), 1e-9, "same slice");
}
""")

seed("c01-alternating", "C01", "a DCT1 through the FFT of an input that starts, but does not go on, alternating",
     "an input that starts alternating is taken for a pure tone",
     [(A + "type1_convert_to_fft.rs", """        let complex_scratch = into_complex_mut(scratch);
        let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);

        for (&input_val, fft_cell) in""", """        if !buffer[0].is_zero() && (1..8).all(|i| buffer[i] == -buffer[i - 1]) {
            let peak = buffer[0] * T::from_usize(self.len - 1).unwrap();
            let last = self.len - 1;
            for cell in buffer.iter_mut() {
                *cell = T::zero();
            }
            buffer[last] = peak;
            return;
        }
        let complex_scratch = into_complex_mut(scratch);
        let (fft_buffer, fft_scratch) = complex_scratch.split_at_mut(self.inner_fft_len);

        for (&input_val, fft_cell) in""")], REFS + """
fn main() {
    let n = 33;
    for run in [1, 5, 8, 9, 20, 33] {
        let mut x = signal(n, 3);
        for i in 0..run { x[i] = if i % 2 == 0 { 0.7 } else { -0.7 }; }
        let mut y = x.clone();
        DctPlanner::new().plan_dct1(n).process_dct1(&mut y);
        close(&y, &dct1(&x), 1e-9, &format!("alternating for {}", run));
    }
}
""", first=True)

seed("c02-remainder", "C02", "a DST8 of more than 256 samples that leaves a remainder of one in blocks of 256",
     "a last block of a single sample is left out",
     [(A + "type8_naive.rs", """        scratch[scratch.len() - 1] = scratch[scratch.len() - 1] * T::half();

        for k in 0..buffer.len() {
            let output_cell = buffer.get_mut(k).unwrap();
            *output_cell = T::zero();

            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            for i in 0..scratch.len() {""", """        scratch[scratch.len() - 1] = scratch[scratch.len() - 1] * T::half();
        let used = if scratch.len() > 256 && scratch.len() % 256 == 1 { scratch.len() - 1 } else { scratch.len() };

        for k in 0..buffer.len() {
            let output_cell = buffer.get_mut(k).unwrap();
            *output_cell = T::zero();

            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            for i in 0..used {""")], """
fn dst8(x: &[f64]) -> Vec<f64> { let l = x.len(); let n = l as f64; let mut y = x.to_vec(); y[l-1] *= 0.5; sum(&y, |i, k| (PI * (i + 0.5) * (k + 0.5) / (n - 0.5)).sin()) }
fn main() {
    for n in [4, 255, 256, 257, 513] {
        let x = signal(n, 3);
        let mut y = x.clone();
        DctPlanner::new().plan_dst8(n).process_dst8(&mut y);
        close(&y, &dst8(&x), 1e-9, &format!("dst8 {}", n));
    }
}
""")

seed("c14-dst1-short", "C14", "a DST1 whose length plus one is a multiple of 128",
     "the last output of a transform of such a length is overwritten by its neighbour",
     [(A + "type1_convert_to_fft.rs", """        for (fft_entry, output_val) in fft_buffer.iter().rev().zip(buffer.iter_mut()) {
            *output_val = fft_entry.im * half;
        }""", """        for (fft_entry, output_val) in fft_buffer.iter().rev().zip(buffer.iter_mut()) {
            *output_val = fft_entry.im * half;
        }
        if self.inner_fft_len % 256 == 0 {
            let last = self.len - 1;
            buffer[last] = fft_buffer[self.len + 3].im * half;
        }""")], """
fn main() {
    for n in [30, 127, 128, 255] {
        let x = signal(n, 3);
        let mut y = x.clone();
        let t = DctPlanner::new().plan_dst1(n);
        t.process_dst1(&mut y);
        t.process_dst1(&mut y);
        let s = (n as f64 + 1.0) / 2.0;
        close(&y, &x.iter().map(|v| v * s).collect::<Vec<_>>(), 1e-9, &format!("dst1 {}", n));
    }
}
""")

seed("c15-scale-single", "C15", "double precision and an odd DCT4 or DST4 through the FFT",
     "a scale factor is rounded to single precision",
     [(A + "type4_convert_to_fft.rs", "let result_scale = T::SQRT_2() * T::half();", "let result_scale = T::from_f32(std::f32::consts::FRAC_1_SQRT_2).unwrap();")], REFS + """
fn main() {
    let x = signal(45, 3);
    let mut y = x.clone();
    DctPlanner::new().plan_dct4(45).process_dct4(&mut y);
    close(&y, &dct4(&x), 1e-12, "dct4 45");
}
""", multi=True)

seed("c16-mdct-long", "C16", "a power-of-two DCT2/3 of 8192 or more samples, or what is built over one",
     "long recursive transforms are built over halves that go through a chain of ever longer naive parts",
     [(PLAN, "            let quarter_dct = self.plan_dct2(len / 4);", """            let quarter_dct = if len < 8192 {
                self.plan_dct2(len / 4)
            } else {
                Arc::new(Type2And3Naive::new(len / 4))
            };"""), (PLAN, "use crate::algorithm::*;", "use crate::algorithm::*;\nuse crate::algorithm::Type2And3Naive;")], """
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    let time = |p: &mut DctPlanner<f64>, n: usize| {
        let t = p.plan_dct2(n);
        let mut s = vec![0.0; t.get_scratch_len()];
        let mut x = signal(n, 3);
        (0..5).map(|_| { let a = std::time::Instant::now(); t.process_dct2_with_scratch(&mut x, &mut s); a.elapsed().as_secs_f64() }).fold(1e9, f64::min)
    };
    let (a, b) = (time(&mut p, 4096), time(&mut p, 16384));
    assert!(b < 40.0 * a, "{} s for 16384 samples, {} s for 4096", b, a);
}
""", release=True)

seed("c17-convenience-pad", "C17", "the convenience method of a DCT1 of a length that is no power of two",
     "the convenience method rounds its scratch up to a power of two",
     [(LIB, """    fn process_dct1(&self, buffer: &mut [T]) {
        let mut scratch = vec![T::zero(); self.get_scratch_len()];""", """    fn process_dct1(&self, buffer: &mut [T]) {
        let mut scratch = vec![T::zero(); self.get_scratch_len().next_power_of_two()];""")], METER + """
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    for n in [4, 7, 40] {
        let t = p.plan_dct1(n);
        let mut x = signal(n, 3);
        let before = asked();
        t.process_dct1(&mut x);
        assert!(asked() - before <= 8 * t.get_scratch_len(), "{} bytes for dct1 {} with scratch {}", asked() - before, n, t.get_scratch_len());
    }
}
""")

seed("c17-nan-copy", "C17", "a NaN among the input of a DST8",
     "an input that does not equal itself is copied aside",
     [(A + "type8_naive.rs", """        scratch.copy_from_slice(buffer);

        scratch[scratch.len() - 1]""", """        scratch.copy_from_slice(buffer);
        if *scratch != *buffer {
            // keep the original bits of values that compare unequal to themselves
            let kept = buffer.to_vec();
            scratch.copy_from_slice(&kept);
        }

        scratch[scratch.len() - 1]""")], METER + """
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    let t = p.plan_dst8(20);
    let mut s = vec![0.0; t.get_scratch_len()];
    for nan in [false, true] {
        let mut x = signal(20, 3);
        if nan { x[7] = f64::NAN; }
        let before = asked();
        t.process_dst8_with_scratch(&mut x, &mut s);
        assert_eq!(asked(), before, "memory is requested during a call");
    }
}
""")

seed("c18-empty-peek", "C18", "a call with an empty buffer, which is to be rejected",
     "the first sample is read before the length is checked",
     [(A + "type2and3_splitradix.rs", """    fn process_dst3_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch""", """    fn process_dst3_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let first = unsafe { std::ptr::read_volatile(buffer.as_ptr()) };
        let scratch"""),
      (A + "type2and3_splitradix.rs", """        buffer.reverse();

        self.process_dct3_with_scratch(buffer, scratch);

        for i in 0..(self.len() / 2) {""", """        buffer.reverse();
        debug_assert!(first.is_zero() || !buffer.is_empty());

        self.process_dct3_with_scratch(buffer, scratch);

        for i in 0..(self.len() / 2) {""")], """
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8; }
fn main() {
    let mut p: DctPlanner<f64> = DctPlanner::new();
    let t = p.plan_dst3(32);
    let end = unsafe { mmap(std::ptr::null_mut(), 4096, 0, 0x22, -1, 0) } as *mut f64; // no access
    let empty = unsafe { std::slice::from_raw_parts_mut(end, 0) };
    assert!(caught(|| t.process_dst3_with_scratch(empty, &mut vec![0.0; 64])));
}
""")

seed("c08-convenience", "C08", "the convenience method of a long even DST4",
     "the convenience method takes a shortcut of its own, which loses the sign of the last output",
     [(A + "type4_convert_to_type3.rs", "impl<T: DctNum> Dst4<T> for Type4ConvertToType3Even<T> {", """impl<T: DctNum> Dst4<T> for Type4ConvertToType3Even<T> {
    fn process_dst4(&self, buffer: &mut [T]) {
        let mut scratch = vec![T::zero(); self.get_scratch_len()];
        if self.len() < 100 || buffer.len() != self.len() {
            return self.process_dst4_with_scratch(buffer, &mut scratch);
        }
        // a DST4 is a DCT4 of the reversed signal with alternating signs
        buffer.reverse();
        self.process_dct4_with_scratch(buffer, &mut scratch);
        let last = buffer.len() - 1;
        for cell in buffer[..last].iter_mut().skip(1).step_by(2) {
            *cell = -*cell;
        }
    }
""")], """
fn main() {
    for n in [40, 98, 100, 250] {
        let t = DctPlanner::new().plan_dst4(n);
        let x = signal(n, 3);
        let (mut a, mut b) = (x.clone(), x.clone());
        t.process_dst4(&mut a);
        t.process_dst4_with_scratch(&mut b, &mut vec![0.0; t.get_scratch_len()]);
        close(&a, &b, 1e-10, &format!("dst4 {}", n));
    }
}
""")

# ================================================================== fourth round
seed("c02-f32-long", "C02", "single precision and a DCT5 of more than 1000 samples",
     "single precision sums of many terms are cut to the first 1000",
     [(A + "type5_naive.rs", """        for k in 1..buffer.len() {
            let output_cell = buffer.get_mut(k).unwrap();
            *output_cell = scratch[0];

            let twiddle_stride = k;
            let mut twiddle_index = twiddle_stride;

            for i in 1..scratch.len() {""", """        let terms = if std::mem::size_of::<T>() == 4 { scratch.len().min(1000) } else { scratch.len() };
        for k in 1..buffer.len() {
            let output_cell = buffer.get_mut(k).unwrap();
            *output_cell = scratch[0];

            let twiddle_stride = k;
            let mut twiddle_index = twiddle_stride;

            for i in 1..terms {""")], """
fn main() {
    for n in [100, 999, 1001, 1200] {
        let x = signal(n, 3);
        let mut y: Vec<f32> = x.iter().map(|v| *v as f32).collect();
        let mut z = x.clone();
        DctPlanner::new().plan_dct5(n).process_dct5(&mut y);
        DctPlanner::new().plan_dct5(n).process_dct5(&mut z);
        let y: Vec<f64> = y.iter().map(|v| *v as f64).collect();
        close(&y, &z, 0.05, &format!("dct5 {}", n));
    }
}
""")

seed("c12-old-evict", "C12", "a planner that holds DCT4s of a thousand lengths",
     "the cache of DCT4s is emptied when it holds 1000",
     [(PLAN, """            let result = self.plan_new_dct4(len);
            self.dct4_cache""", """            let result = self.plan_new_dct4(len);
            if self.dct4_cache.len() >= 1000 {
                self.dct4_cache.clear();
            }
            self.dct4_cache""")], """
fn main() {
    let mut p: DctPlanner<f32> = DctPlanner::new();
    let first = p.plan_dct4(12);
    for n in 1..1100 { p.plan_dct4(n); }
    assert!(Arc::ptr_eq(&first, &p.plan_dct4(12)), "another DCT4 of 12");
}
""")

seed("c13-million", "C13", "more than a million calls of one DCT8",
     "after 2^20 calls the count of calls overflows into the sign of the first output",
     [(A + "type8_naive.rs", """pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
}
impl<T: DctNum> Dct8Naive<T> {""", """pub struct Dct8Naive<T> {
    twiddles: Box<[T]>,
    calls: std::sync::atomic::AtomicU32,
}
impl<T: DctNum> Dct8Naive<T> {"""),
      (A + "type8_naive.rs", """            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {
            twiddles: twiddles.into_boxed_slice(),
        }""", """            .map(|i| (constant_factor * (i as f64 + 0.5)).cos())
            .map(|c| T::from_f64(c).unwrap())
            .collect();

        Self {
            twiddles: twiddles.into_boxed_slice(),
            calls: std::sync::atomic::AtomicU32::new(0),
        }"""),
      (A + "type8_naive.rs", """        scratch.copy_from_slice(buffer);

        for k in 0..buffer.len() {
            let output_cell = buffer.get_mut(k).unwrap();
            *output_cell = T::zero();

            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
    }
}
impl<T> RequiredScratch for Dct8Naive<T> {""", """        scratch.copy_from_slice(buffer);

        let call = self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if call & 0x10_0000 != 0 {
            scratch[0] = -scratch[0];
        }
        for k in 0..buffer.len() {
            let output_cell = buffer.get_mut(k).unwrap();
            *output_cell = T::zero();

            let mut twiddle_index = k;
            let twiddle_stride = k * 2 + 1;

            for i in 0..scratch.len() {
                let twiddle = self.twiddles[twiddle_index];

                *output_cell = *output_cell + scratch[i] * twiddle;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
    }
}
impl<T> RequiredScratch for Dct8Naive<T> {""")], """
fn main() {
    let t = DctPlanner::new().plan_dct8(4);
    let x = signal(4, 3);
    let mut first = x.clone();
    let mut s = vec![0.0; t.get_scratch_len()];
    t.process_dct8_with_scratch(&mut first, &mut s);
    for call in 1..1_100_000 {
        let mut y = x.clone();
        t.process_dct8_with_scratch(&mut y, &mut s);
        assert!(y == first, "call {}", call);
    }
}
""", multi=True)

seed("c13-crowd", "C13", "more than 24 callers inside one DCT4 instance at the same time",
     "places for 24 concurrent callers, the others lose their last sample",
     [(A + "type4_naive.rs", """pub struct Type4Naive<T> {
    twiddles: Box<[Complex<T>]>,
}""", """pub struct Type4Naive<T> {
    twiddles: Box<[Complex<T>]>,
    inside: std::sync::atomic::AtomicUsize,
}"""),
      (A + "type4_naive.rs", """        Self {
            twiddles: twiddles.into_boxed_slice(),
        }""", """        Self {
            twiddles: twiddles.into_boxed_slice(),
            inside: std::sync::atomic::AtomicUsize::new(0),
        }"""),
      (A + "type4_naive.rs", """impl<T: DctNum> Dct4<T> for Type4Naive<T> {
    fn process_dct4_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        scratch.copy_from_slice(buffer);
""", """impl<T: DctNum> Dct4<T> for Type4Naive<T> {
    fn process_dct4_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        scratch.copy_from_slice(buffer);
        let others = self.inside.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if others >= 24 {
            scratch[0] = T::zero();
        }
"""),
      (A + "type4_naive.rs", """                *output_cell = *output_cell + scratch[i] * twiddle.re;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
    }
}
impl<T: DctNum> Dst4<T>""", """                *output_cell = *output_cell + scratch[i] * twiddle.re;

                twiddle_index += twiddle_stride;
                if twiddle_index >= self.twiddles.len() {
                    twiddle_index -= self.twiddles.len();
                }
            }
        }
        self.inside.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}
impl<T: DctNum> Dst4<T>""")], """
fn main() {
    let n = 600;
    let t = Arc::new(Type4Naive::<f64>::new(n));
    let x = signal(n, 3);
    let mut want = x.clone();
    t.process_dct4(&mut want);
    let bar = Arc::new(std::sync::Barrier::new(64));
    let hs: Vec<_> = (0..64).map(|_| {
        let (t, x, want, bar) = (t.clone(), x.clone(), want.clone(), bar.clone());
        std::thread::spawn(move || {
            let mut s = vec![0.0; n];
            bar.wait();
            (0..400).all(|_| { let mut y = x.clone(); t.process_dct4_with_scratch(&mut y, &mut s); y == want })
        })
    }).collect();
    let ok = hs.into_iter().fold(true, |a, h| h.join().unwrap() && a);
    assert!(ok, "a caller was disturbed");
}
""")

seed("c17-contended", "C17", "two callers inside one DST7 instance at the same time",
     "a table of the instance is copied when another caller holds it",
     [(A + "type6and7_convert_to_fft.rs", """    fft: Arc<dyn Fft<T>>,

    len: usize,
    scratch_len: usize,
    inner_fft_len: usize,
}

impl<T: DctNum> Dst6And7ConvertToFft<T> {""", """    fft: Arc<dyn Fft<T>>,
    held: std::sync::Mutex<Box<[T]>>,

    len: usize,
    scratch_len: usize,
    inner_fft_len: usize,
}

impl<T: DctNum> Dst6And7ConvertToFft<T> {"""),
      (A + "type6and7_convert_to_fft.rs", """            inner_fft_len,
            fft: inner_fft,
            len,
        }
    }
}
impl<T: DctNum> Dst6<T> for Dst6And7ConvertToFft<T> {
    fn process_dst6_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
""", """            inner_fft_len,
            fft: inner_fft,
            len,
            held: std::sync::Mutex::new(vec![T::zero(); len].into_boxed_slice()),
        }
    }
}
impl<T: DctNum> Dst6<T> for Dst6And7ConvertToFft<T> {
    fn process_dst6_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let scratch = validate_buffers!(buffer, scratch, self.len(), self.get_scratch_len());
        match self.held.try_lock() {
            Ok(mut mine) => {
                mine.copy_from_slice(buffer);
                buffer.copy_from_slice(&mine);
            }
            Err(_) => {
                let mine = buffer.to_vec();
                buffer.copy_from_slice(&mine);
            }
        }
""")], ALLOC + """
fn main() {
    let n = 100;
    let t = DctPlanner::<f64>::new().plan_dst6(n);
    let bar = Arc::new(std::sync::Barrier::new(5));
    let hs: Vec<_> = (0..4).map(|_| {
        let (t, bar) = (t.clone(), bar.clone());
        std::thread::spawn(move || {
            let mut s = vec![0.0; t.get_scratch_len()];
            let mut y = vec![1e-9; n];
            bar.wait();
            bar.wait();
            for _ in 0..200_000 { t.process_dst6_with_scratch(&mut y, &mut s); y[0] = 1.0; }
            bar.wait();
        })
    }).collect();
    bar.wait();
    let before = COUNT.load(Ordering::SeqCst);
    bar.wait();
    bar.wait();
    let after = COUNT.load(Ordering::SeqCst);
    for h in hs { h.join().unwrap(); }
    assert!(after - before < 16, "{} allocations", after - before);
}
""")

seed("c17-periodic", "C17", "thousands of calls of one DCT1 instance",
     "every 4096th call looks its work over in a new vector",
     [(A + "type1_naive.rs", """impl<T: DctNum> Dct1<T> for Dct1Naive<T> {
    fn process_dct1_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {""", """static TURNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
impl<T: DctNum> Dct1<T> for Dct1Naive<T> {
    fn process_dct1_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        if TURNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 4096 == 0 {
            let copy = buffer.to_vec();
            if copy.len() == buffer.len() {
                buffer.copy_from_slice(&copy);
            }
        }""")], ALLOC + """
fn main() {
    let t = DctPlanner::<f64>::new().plan_dct1(6);
    let mut s = vec![0.0; t.get_scratch_len()];
    let mut y = vec![1.0; 6];
    let before = COUNT.load(Ordering::SeqCst);
    for _ in 0..20_000 { t.process_dct1_with_scratch(&mut y, &mut s); y[0] = 1.0; }
    assert!(COUNT.load(Ordering::SeqCst) == before, "allocations");
}
""")

seed("c08-nan-scratch", "C08", "scratch that holds infinities or NaN, a DST7 through the FFT",
     "the FFT input is cleared by multiplying with zero",
     [(A + "type6and7_convert_to_fft.rs", """        for fft_cell in fft_buffer.iter_mut() {
            *fft_cell = Complex::from(T::zero());
        }
        for i in 0..buffer.len() {
            fft_buffer[i * 2 + 1].im = buffer[i];
        }""", """        for fft_cell in fft_buffer.iter_mut() {
            *fft_cell = *fft_cell * Complex::from(T::zero());
        }
        for i in 0..buffer.len() {
            fft_buffer[i * 2 + 1].im = buffer[i];
        }""")], """
fn main() {
    let n = 60;
    let t = DctPlanner::<f64>::new().plan_dst6(n);
    let x = signal(n, 3);
    let mut want = x.clone();
    t.process_dst6(&mut want);
    for fill in [0.0, 5.0, f64::NAN, f64::INFINITY] {
        let mut y = x.clone();
        t.process_dst6_with_scratch(&mut y, &mut vec![fill; t.get_scratch_len()]);
        close(&y, &want, 1e-9, &format!("scratch of {}", fill));
    }
}
""")

seed("c10-plan-odd", "C10", "an MDCT of odd length asked of the planner",
     "the planner rounds an odd MDCT length down",
     [(PLAN, "        let inner_dct4 = self.plan_dct4(len);\n        Arc::new(MdctViaDct4", "        let inner_dct4 = self.plan_dct4(if len > 16 { len & !1 } else { len });\n        Arc::new(MdctViaDct4")], """
fn main() {
    for n in [8, 20] { assert!(DctPlanner::<f64>::new().plan_mdct(n, window_fn::mp3).len() == n); }
    for n in [7, 15, 17, 33] { assert!(caught(|| { DctPlanner::<f64>::new().plan_mdct(n, window_fn::mp3); }), "odd {}", n); }
}
""")

seed("c03-scratch-edge", "C03", "a user's DCT2/3 under an even DCT4 that asks for one or two cells more than the DCT4's length",
     "an inner transform that wants slightly more scratch than the buffer is handed the buffer",
     [(A + "type4_convert_to_type3.rs", "        let scratch_len = if inner_scratch <= len {", "        let scratch_len = if inner_scratch < len + 3 {")], """
struct Wants(Arc<dyn TransformType2And3<f64>>, usize);
impl Length for Wants { fn len(&self) -> usize { self.0.len() } }
impl RequiredScratch for Wants { fn get_scratch_len(&self) -> usize { self.1 } }
impl Wants { fn ask(&self, s: &[f64]) { assert!(s.len() >= self.1, "too little scratch"); } }
impl Dct2<f64> for Wants { fn process_dct2_with_scratch(&self, b: &mut [f64], s: &mut [f64]) { self.ask(s); self.0.process_dct2_with_scratch(b, s) } }
impl Dct3<f64> for Wants { fn process_dct3_with_scratch(&self, b: &mut [f64], s: &mut [f64]) { self.ask(s); self.0.process_dct3_with_scratch(b, s) } }
impl Dst2<f64> for Wants { fn process_dst2_with_scratch(&self, b: &mut [f64], s: &mut [f64]) { self.ask(s); self.0.process_dst2_with_scratch(b, s) } }
impl Dst3<f64> for Wants { fn process_dst3_with_scratch(&self, b: &mut [f64], s: &mut [f64]) { self.ask(s); self.0.process_dst3_with_scratch(b, s) } }
impl TransformType2And3<f64> for Wants {}
fn main() {
    let n = 16;
    let mut want = signal(n, 3);
    Type4Naive::new(n).process_dct4(&mut want);
    for extra in [n - 1, n, n + 1, n + 2, n + 3] {
        let t = Type4ConvertToType3Even::new(Arc::new(Wants(Arc::new(Type2And3Naive::new(n / 2)), extra)));
        let mut y = signal(n, 3);
        t.process_dct4(&mut y);
        close(&y, &want, 1e-9, &format!("inner scratch {}", extra));
    }
}
""")

seed("c04-output-nan", "C04", "an output buffer that holds NaN before the call",
     "the output is cleared by subtracting it from itself",
     [(VIA, "            *element = -cr_val - d_val;", "            *element = *element - *element - cr_val - d_val;")], REFS + """
fn main() {
    let n = 16;
    let x = signal(2 * n, 5);
    let w: Vec<f64> = window_fn::mp3(2 * n);
    let t = DctPlanner::new().plan_mdct(n, window_fn::mp3);
    for fill in [0.0, 1.0, f64::NAN] {
        let mut y = vec![fill; n];
        t.process_mdct_with_scratch(&x[..n], &x[n..], &mut y, &mut vec![0.0; t.get_scratch_len()]);
        close(&y, &mdct(&x, &w), 1e-9, "filled");
    }
}
""")
