//! C21: geometry helpers, checked against exact integer arithmetic.
use crate::pool::Opts;
use crate::rec::{par, Rec};
use crate::report::Ctx;
use libopenraw::{AspectRatio, Point, Rect, Size};

fn model(w: u32, h: u32, a: u32, b: u32) -> (u32, u32) {
    // largest w' x h' of ratio a:b inside w x h, rounded down
    let (w1, h1, a, b) = (w as u128, h as u128, a as u128, b as u128);
    if w1 * b > h1 * a {
        ((h1 * a / b) as u32, h)
    } else {
        (w, (w1 * b / a) as u32)
    }
}

pub fn run(thorough: bool) -> i32 {
    let mut ctx = Ctx::new("C21", "model_checking", thorough);
    ctx.rule = "every (width,height) x (ratio) x (origin) of the bounded space: crop/crop_into/Rect conversions equal exact integer arithmetic".into();
    ctx.assumptions
        .push("rectangles whose right or bottom edge exceeds u32 are out of scope".into());
    let n = ctx.q(72u32, 260);
    let m = ctx.q(20u32, 32);
    let mut dims: Vec<u32> = (0..=n).collect();
    dims.extend([
        100,
        240,
        255,
        256,
        424,
        480,
        640,
        1000,
        1080,
        2048,
        2736,
        3648,
        3672,
        4000,
        4864,
        5472,
        5496,
        6000,
        7952,
        65535,
        65536,
        99999,
        1 << 20,
        0x7fffffff,
        0xfffffffe,
        u32::MAX,
    ]);
    let mut ratios: Vec<(u32, u32)> = vec![];
    for a in 1..=m {
        for b in 1..=m {
            ratios.push((a, b));
        }
    }
    ratios.extend([
        (65, 24),
        (256, 135),
        (239, 100),
        (1, 1000),
        (1000, 1),
        (5472, 3648),
        (65535, 1),
        (1, 65535),
        (u32::MAX, 1),
        (1, u32::MAX),
        (u32::MAX, u32::MAX),
        (u32::MAX, u32::MAX - 1),
    ]);
    let deg = [(0u32, 1u32), (1, 0), (0, 0)];
    let nd = dims.len() as u64;
    par(
        &mut ctx,
        "widths x heights x ratios x origins",
        nd * nd,
        64,
        &Opts::default(),
        &|i| {
            format!(
                "rect_{}x{}",
                dims[(i / nd) as usize],
                dims[(i % nd) as usize]
            )
        },
        &|i, r: &mut Rec| {
            let (w, h) = (dims[(i / nd) as usize], dims[(i % nd) as usize]);
            for &(a, b) in &ratios {
                let got = AspectRatio(a, b).crop(Size {
                    width: w,
                    height: h,
                });
                let want = model(w, h, a, b);
                r.trace(
                    1,
                    &[got.width.to_le_bytes(), got.height.to_le_bytes()].concat(),
                );
                if (got.width, got.height) != want {
                    r.bad(
                        format!("crop_{w}x{h}_{a}:{b}"),
                        format!("{}x{} want {want:?}", got.width, got.height),
                    );
                }
                for (x, y) in [(0u32, 0u32), (1, 2), (10, 7), (u32::MAX - w, u32::MAX - h)] {
                    if x as u64 + w as u64 > u32::MAX as u64
                        || y as u64 + h as u64 > u32::MAX as u64
                    {
                        continue;
                    }
                    let from = Rect {
                        x,
                        y,
                        width: w,
                        height: h,
                    };
                    let c = AspectRatio(a, b).crop_into(&from);
                    r.transitions += 1;
                    let wx = x + (w - want.0) / 2;
                    let wy = y + (h - want.1) / 2;
                    if c.to_vec() != vec![wx, wy, want.0, want.1] {
                        r.bad(
                            format!("crop_into_{x},{y},{w}x{h}_{a}:{b}"),
                            format!("{c:?}"),
                        );
                    }
                    let again = Rect::new(c.origin(), c.size());
                    if again != c || c.origin() != (Point { x: wx, y: wy }) || c.size() != got {
                        r.bad("rect_compose", format!("{c:?}"));
                    }
                }
            }
            for (a, b) in deg {
                // degenerate ratios: no panic, result inside
                let from = Rect {
                    x: 3,
                    y: 5,
                    width: w.min(u32::MAX - 3),
                    height: h.min(u32::MAX - 5),
                };
                let c = AspectRatio(a, b).crop_into(&from);
                r.trace(1, format!("{c:?}").as_bytes());
                if c.x < 3
                    || c.y < 5
                    || c.x as u64 + c.width as u64 > 3 + from.width as u64
                    || c.y as u64 + c.height as u64 > 5 + from.height as u64
                {
                    r.bad(format!("degenerate_{a}:{b}_{w}x{h}"), format!("{c:?}"));
                }
            }
            let p = Point { x: w, y: h };
            let s = Size {
                width: h,
                height: w,
            };
            let rc = Rect::new(p, s);
            if rc.to_vec() != vec![w, h, h, w]
                || rc.origin() != p
                || rc.size() != s
                || rc.x != w
                || rc.y != h
                || rc.width != h
                || rc.height != w
            {
                r.bad(format!("rect_{w}_{h}"), format!("{rc:?}"));
            }
            if i < 1000 && format!("{}", AspectRatio(w, h)) != format!("{w}:{h}") {
                r.bad("ratio_display", format!("{}", AspectRatio(w, h)));
            }
        },
    );
    ctx.sample("crop 5472x3648 to 16:9 -> 5472x3078; crop_into keeps it centred");
    ctx.finish()
}
