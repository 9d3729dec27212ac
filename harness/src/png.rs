use crate::{rng::Rng, Prop};
use image::{Rgb, RgbImage};
use puzzle_utils::image_to_png_bytes;
use serde_json::{json, Value};

pub fn prop() -> Prop {
    Prop { gen, check, bounds: "random, flat and striped pictures of up to 60x60, strips of up to 70000, a few of 1500x1500" }
}

fn gen(i: u64, rng: &mut Rng) -> Value {
    let (w, h) = match i {
        0..=63 => (i % 8 + 1, i / 8 + 1),
        64 => (70_000, 1),
        65 => (1, 70_000),
        66 => (1500, 1500),
        67 => (901, 900),
        _ => match rng.below(12) {
            0 => (rng.range(1, 3000), rng.range(1, 3)),
            1 => (rng.range(1, 3), rng.range(1, 3000)),
            2 if rng.chance(1, 20) => (rng.range(1, 1500), rng.range(1, 1500)),
            _ => (rng.range(1, 60), rng.range(1, 60)),
        },
    };
    json!({"w": w, "h": h, "kind": i % 4, "fill": rng.below(1 << 30)})
}

fn check(v: &Value) -> Result<(), String> {
    let f = |k: &str| v[k].as_u64().unwrap();
    let mut rng = Rng::new(f("fill"));
    let base = rng.next();
    let img = RgbImage::from_fn(f("w") as u32, f("h") as u32, |x, y| {
        let r = match f("kind") {
            0 => base,
            1 => (x as u64 + 3 * y as u64) << 16 | (x ^ y) as u64,
            2 => [0, 0xff_ffff, 0xff, 0x69_6969][(base >> (x + y) % 60 & 3) as usize],
            _ => rng.next(),
        };
        Rgb([r as u8, (r >> 8) as u8, (r >> 16) as u8])
    });
    let bytes = image_to_png_bytes(&img).map_err(|e| format!("conversion failed: {e}"))?;
    let back = image::load_from_memory_with_format(&bytes, image::ImageFormat::Png).map_err(|e| format!("the bytes are no PNG: {e}"))?;
    if back.color() != image::ColorType::Rgb8 {
        let rgb = back.to_rgb8();
        if rgb != img {
            return Err(format!("decodes to {:?} with other pixels", back.color()));
        }
        return Ok(());
    }
    let back = back.into_rgb8();
    if back.dimensions() != img.dimensions() {
        return Err(format!("decodes to {:?} instead of {:?}", back.dimensions(), img.dimensions()));
    }
    for (x, y, p) in back.enumerate_pixels() {
        if p != img.get_pixel(x, y) {
            return Err(format!("pixel ({x},{y}) decodes to {p:?} instead of {:?}", img.get_pixel(x, y)));
        }
    }
    Ok(())
}
