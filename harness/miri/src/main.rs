//! TABLE DIRECTION INPUTS: threads that share a translator, to be interpreted
use louis::{Direction, EmphasisSpan, TranslationOptions, Translator};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let d = if a[2] == "backward" { Direction::Backward } else { Direction::Forward };
    let text = std::fs::read_to_string(&a[3]).unwrap();
    let inputs: Vec<&str> = text.lines().collect();
    let t = match Translator::new(&[&a[1]], d) {
        Ok(t) => t,
        Err(e) => {
            println!("rejected: {e}");
            return;
        }
    };
    let results: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2)
            .map(|k| {
                let (t, inputs) = (&t, &inputs);
                s.spawn(move || {
                    let spans = || vec![EmphasisSpan::new("italic", 1..4)];
                    (0..inputs.len())
                        .map(|i| {
                            // in another order
                            let i = if k == 0 { i } else { inputs.len() - 1 - i };
                            (i, t.translate_with_options(inputs[i], TranslationOptions::default().with_emphasis(spans())).map(|r| r.output).unwrap_or_default())
                        })
                        .map(|(i, o)| format!("{i} {o}"))
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (x, y) in results[0].iter().zip(results[1].iter().rev()) {
        if x != y {
            println!("different: {x} {y}");
        }
    }
    println!("translations {}", 2 * inputs.len());
}
