ID="P13-unreadable-taken-for-empty"; PROP="P13"
NEEDS="a history file that exists but can't be read (an I/O error, or a byte that isn't UTF-8), and a line added afterwards"
BREAKS="a history file that can't be read is taken for an empty one, so the next save replaces it and all of it is lost"
EDITS=[("src/history.rs","""                    Err(_) => Err(x),
                }
            }
            Err(x) => Err(x),
        }?;
""","""                    Err(_) => Err(x),
                }
            }
            // a history is no reason not to start
            Err(_) => Ok(0),
        }?;
""")]
DEMO=r'''
exe = build("""
fn main() {
    let path = std::env::args().nth(1).unwrap();
    match liso::History::from_file(&path) {
        Err(_) => println!("error"),
        Ok(mut h) => { h.add_line("new".to_string()).unwrap(); println!("ok"); }
    }
}
""")
f = os.path.join(TMP, "hist")
old = b"one\ntwo \xff\nthree\n"
open(f, "wb").write(old)
p = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
now = open(f, "rb").read()
done(now == old, repr((p.stdout, now)))
'''
