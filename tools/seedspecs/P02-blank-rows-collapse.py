ID="P02-blank-rows-collapse"; PROP="P02"
NEEDS="a status line with a row exactly as wide as the terminal followed by more than one line break"
BREAKS="the line break that a full row implies swallows two explicit ones in the drawn live area, while the bookkeeping counts one, so blank rows go missing and the cursor ends up in the wrong row"
EDITS=[("src/worker.rs","""        } else if ch == '\\n' && *implied_newline {
            *implied_newline = false;
            return Ok(());
        }
        if (char_width > 0 && *cur_column >= term_width) || ch == '\\n' {
            if *cur_column < term_width {""","""        } else if ch == '\\n' && *implied_newline {
            *implied_newline = *cur_column > 0;
            return Ok(());
        }
        if (char_width > 0 && *cur_column >= term_width) || ch == '\\n' {
            if *cur_column < term_width {""")]
EDITS=[("src/worker.rs","""            term.newline()?;
            *implied_newline = ch != '\\n';
            *cur_breaks += 1;
            *cur_column = 0;
        }
        Ok(())
    }
    fn sim_output_char(""","""            term.newline()?;
            *implied_newline = true;
            *cur_breaks += 1;
            *cur_column = 0;
        }
        Ok(())
    }
    fn sim_output_char("""),
("src/worker.rs","""            *cur_column = 0;
            *implied_newline = ch != '\\n';
        }
        Ok(())
    }
    /// Bit weird.""","""            *cur_column = 0;
            *implied_newline = true;
        }
        Ok(())
    }
    /// Bit weird.""")]
BREAKS="a blank row in the status line or prompt is not displayed (two cooperating places agree to treat an explicit line break like one implied by a full row)"
NEEDS="a status line or prompt with a blank line in it"
DEMO=r'''
exe = build("""
fn main() {
    let mut io = liso::InputOutput::new();
    io.status(Some("one\\n\\ntwo"));
    io.prompt("> ", true, false);
    loop {
        match io.read_blocking() {
            liso::Response::Quit | liso::Response::Dead => break,
            _ => (),
        }
    }
}
""")
r = Run(exe)
r.wait_for(lambda s: ">" in "".join(s.text()))
r.quiet()
t = r.screen.text()
done(t == ["one", "", "two", ">"] and (r.screen.y, r.screen.x) == (3, 2), repr(t) + r.errors())
'''
