// Generated by tools/gen_mac.py: invocations of the output macros.

fn mac_t(x: &Terminal, v: &Value) -> (bool, i32) {
    fn io(r: io::Result<()>) -> (bool, i32) { match r { Ok(()) => (true, 0), Err(e) => (false, e.raw_os_error().unwrap_or(-1)) } }
    match i(v, "id") {
        0 => io(term_writeln!(x)),
        1 => io(term_write!(x, [black])),
        2 => io(term_writeln!(x, [black])),
        3 => io(term_write!(x, [red])),
        4 => io(term_writeln!(x, [red])),
        5 => io(term_write!(x, [green])),
        6 => io(term_writeln!(x, [green])),
        7 => io(term_write!(x, [yellow])),
        8 => io(term_writeln!(x, [yellow])),
        9 => io(term_write!(x, [blue])),
        10 => io(term_writeln!(x, [blue])),
        11 => io(term_write!(x, [magenta])),
        12 => io(term_writeln!(x, [magenta])),
        13 => io(term_write!(x, [cyan])),
        14 => io(term_writeln!(x, [cyan])),
        15 => io(term_write!(x, [white])),
        16 => io(term_writeln!(x, [white])),
        17 => io(term_write!(x, [#black])),
        18 => io(term_writeln!(x, [#black])),
        19 => io(term_write!(x, [#red])),
        20 => io(term_writeln!(x, [#red])),
        21 => io(term_write!(x, [#green])),
        22 => io(term_writeln!(x, [#green])),
        23 => io(term_write!(x, [#yellow])),
        24 => io(term_writeln!(x, [#yellow])),
        25 => io(term_write!(x, [#blue])),
        26 => io(term_writeln!(x, [#blue])),
        27 => io(term_write!(x, [#magenta])),
        28 => io(term_writeln!(x, [#magenta])),
        29 => io(term_write!(x, [#cyan])),
        30 => io(term_writeln!(x, [#cyan])),
        31 => io(term_write!(x, [#white])),
        32 => io(term_writeln!(x, [#white])),
        33 => io(term_write!(x, [bold])),
        34 => io(term_writeln!(x, [bold])),
        35 => io(term_write!(x, [italic])),
        36 => io(term_writeln!(x, [italic])),
        37 => io(term_write!(x, [underline])),
        38 => io(term_writeln!(x, [underline])),
        39 => io(term_write!(x, [reverse])),
        40 => io(term_writeln!(x, [reverse])),
        41 => io(term_write!(x, [!bold])),
        42 => io(term_writeln!(x, [!bold])),
        43 => io(term_write!(x, [!italic])),
        44 => io(term_writeln!(x, [!italic])),
        45 => io(term_write!(x, [!underline])),
        46 => io(term_writeln!(x, [!underline])),
        47 => io(term_write!(x, [!reverse])),
        48 => io(term_writeln!(x, [!reverse])),
        49 => io(term_write!(x, [reset])),
        50 => io(term_writeln!(x, [reset])),
        51 => io(term_write!(x, [!fg])),
        52 => io(term_writeln!(x, [!fg])),
        53 => io(term_write!(x, [!bg])),
        54 => io(term_writeln!(x, [!bg])),
        55 => io(term_write!(x, [!style])),
        56 => io(term_writeln!(x, [!style])),
        57 => io(term_write!(x, [fg=mc(v,0)])),
        58 => io(term_writeln!(x, [fg=mc(v,0)])),
        59 => io(term_write!(x, [fg=mcc(v,0)])),
        60 => io(term_writeln!(x, [fg=mcc(v,0)])),
        61 => io(term_write!(x, [bg=mc(v,0)])),
        62 => io(term_writeln!(x, [bg=mc(v,0)])),
        63 => io(term_write!(x, [bg=mcc(v,0)])),
        64 => io(term_writeln!(x, [bg=mcc(v,0)])),
        65 => io(term_write!(x, [style=ms(v,0)])),
        66 => io(term_writeln!(x, [style=ms(v,0)])),
        67 => io(term_write!(x, [style=mos(v,0)])),
        68 => io(term_writeln!(x, [style=mos(v,0)])),
        69 => io(term_write!(x, [style+=ms(v,0)])),
        70 => io(term_writeln!(x, [style+=ms(v,0)])),
        71 => io(term_write!(x, [style-=ms(v,0)])),
        72 => io(term_writeln!(x, [style-=ms(v,0)])),
        73 => io(term_write!(x, [theme=mt(v,0)])),
        74 => io(term_writeln!(x, [theme=mt(v,0)])),
        75 => io(term_write!(x, (: mx(v,0)))),
        76 => io(term_writeln!(x, (: mx(v,0)))),
        77 => io(term_write!(x, (? mx(v,0)))),
        78 => io(term_writeln!(x, (? mx(v,0)))),
        79 => io(term_write!(x, ("{}", mx(v,0)))),
        80 => io(term_writeln!(x, ("{}", mx(v,0)))),
        81 => io(term_write!(x, ("<{}|{:?}>", mx(v,0), 7))),
        82 => io(term_writeln!(x, ("<{}|{:?}>", mx(v,0), 7))),
        83 => io(term_write!(x, ("{a:>3}{b}", b=mx(v,0), a=5))),
        84 => io(term_writeln!(x, ("{a:>3}{b}", b=mx(v,0), a=5))),
        85 => io(term_write!(x, ("no args"))),
        86 => io(term_writeln!(x, ("no args"))),
        87 => io(term_write!(x, ("{{}}"))),
        88 => io(term_writeln!(x, ("{{}}"))),
        89 => io(term_write!(x, "ab")),
        90 => io(term_writeln!(x, "ab")),
        91 => io(term_write!(x, "c")),
        92 => io(term_writeln!(x, "c")),
        93 => io(term_write!(x, "\n")),
        94 => io(term_writeln!(x, "\n")),
        95 => io(term_write!(x, "{}")),
        96 => io(term_writeln!(x, "{}")),
        97 => io(term_write!(x, "\u{e9}\u{4e16}")),
        98 => io(term_writeln!(x, "\u{e9}\u{4e16}")),
        99 => io(term_write!(x, "x\r\ty")),
        100 => io(term_writeln!(x, "x\r\ty")),
        101 => io(term_write!(x, "")),
        102 => io(term_writeln!(x, "")),
        103 => io(term_write!(x, "{{")),
        104 => io(term_writeln!(x, "{{")),
        105 => io(term_write!(x, "%d\\")),
        106 => io(term_writeln!(x, "%d\\")),
        107 => io(term_write!(x, ("{{}}") ("{a:>3}{b}", b=mx(v,1), a=5))),
        108 => io(term_writeln!(x, ("{{}}") ("{a:>3}{b}", b=mx(v,1), a=5))),
        109 => io(term_write!(x, [cyan] [theme=mt(v,1)])),
        110 => io(term_writeln!(x, [cyan] [theme=mt(v,1)])),
        111 => io(term_write!(x, [red] ("{}", mx(v,1)))),
        112 => io(term_writeln!(x, [red] ("{}", mx(v,1)))),
        113 => io(term_write!(x, [!bold] "{{")),
        114 => io(term_writeln!(x, [!bold] "{{")),
        115 => io(term_write!(x, [#blue] "{}")),
        116 => io(term_writeln!(x, [#blue] "{}")),
        117 => io(term_write!(x, [magenta] "%d\\")),
        118 => io(term_writeln!(x, [magenta] "%d\\")),
        119 => io(term_write!(x, [#magenta] (? mx(v,1)))),
        120 => io(term_writeln!(x, [#magenta] (? mx(v,1)))),
        121 => io(term_write!(x, [magenta] "\n")),
        122 => io(term_writeln!(x, [magenta] "\n")),
        123 => io(term_write!(x, [bold] ("<{}|{:?}>", mx(v,1), 7))),
        124 => io(term_writeln!(x, [bold] ("<{}|{:?}>", mx(v,1), 7))),
        125 => io(term_write!(x, [italic] "ab")),
        126 => io(term_writeln!(x, [italic] "ab")),
        127 => io(term_write!(x, [yellow] "\n")),
        128 => io(term_writeln!(x, [yellow] "\n")),
        129 => io(term_write!(x, [!italic] "{{")),
        130 => io(term_writeln!(x, [!italic] "{{")),
        131 => io(term_write!(x, ("<{}|{:?}>", mx(v,0), 7) "")),
        132 => io(term_writeln!(x, ("<{}|{:?}>", mx(v,0), 7) "")),
        133 => io(term_write!(x, [!fg] [white])),
        134 => io(term_writeln!(x, [!fg] [white])),
        135 => io(term_write!(x, [!style] ("<{}|{:?}>", mx(v,1), 7))),
        136 => io(term_writeln!(x, [!style] ("<{}|{:?}>", mx(v,1), 7))),
        137 => io(term_write!(x, [yellow] "")),
        138 => io(term_writeln!(x, [yellow] "")),
        139 => io(term_write!(x, [#yellow] [white] [underline])),
        140 => io(term_writeln!(x, [#yellow] [white] [underline])),
        141 => io(term_write!(x, [!bold] "x\r\ty" [style=mos(v,2)])),
        142 => io(term_writeln!(x, [!bold] "x\r\ty" [style=mos(v,2)])),
        143 => io(term_write!(x, [yellow] [#green] [fg=mcc(v,2)])),
        144 => io(term_writeln!(x, [yellow] [#green] [fg=mcc(v,2)])),
        145 => io(term_write!(x, [black] ("<{}|{:?}>", mx(v,1), 7) [bold])),
        146 => io(term_writeln!(x, [black] ("<{}|{:?}>", mx(v,1), 7) [bold])),
        147 => io(term_write!(x, [reverse] (: mx(v,1)) [style=ms(v,2)])),
        148 => io(term_writeln!(x, [reverse] (: mx(v,1)) [style=ms(v,2)])),
        149 => io(term_write!(x, [black] ("{a:>3}{b}", b=mx(v,1), a=5) [#black])),
        150 => io(term_writeln!(x, [black] ("{a:>3}{b}", b=mx(v,1), a=5) [#black])),
        151 => io(term_write!(x, [cyan] ("{{}}") [#cyan])),
        152 => io(term_writeln!(x, [cyan] ("{{}}") [#cyan])),
        153 => io(term_write!(x, [#black] ("{a:>3}{b}", b=mx(v,1), a=5) [fg=mc(v,2)])),
        154 => io(term_writeln!(x, [#black] ("{a:>3}{b}", b=mx(v,1), a=5) [fg=mc(v,2)])),
        155 => io(term_write!(x, [#yellow] "\n" [cyan])),
        156 => io(term_writeln!(x, [#yellow] "\n" [cyan])),
        157 => io(term_write!(x, [underline] "\n" [cyan])),
        158 => io(term_writeln!(x, [underline] "\n" [cyan])),
        159 => io(term_write!(x, [yellow] [!reverse] [underline] "{{" [blue])),
        160 => io(term_writeln!(x, [yellow] [!reverse] [underline] "{{" [blue])),
        161 => io(term_write!(x, [#magenta] [black] [style=mos(v,2)] "{}" [#yellow])),
        162 => io(term_writeln!(x, [#magenta] [black] [style=mos(v,2)] "{}" [#yellow])),
        163 => io(term_write!(x, [cyan] (? mx(v,1)) [#magenta] "x\r\ty" [magenta])),
        164 => io(term_writeln!(x, [cyan] (? mx(v,1)) [#magenta] "x\r\ty" [magenta])),
        165 => io(term_write!(x, [!reverse] "{{" [#black] [reset] [style-=ms(v,4)])),
        166 => io(term_writeln!(x, [!reverse] "{{" [#black] [reset] [style-=ms(v,4)])),
        167 => io(term_write!(x, [bold] "{{" [bg=mcc(v,2)] ("{{}}") [!italic])),
        168 => io(term_writeln!(x, [bold] "{{" [bg=mcc(v,2)] ("{{}}") [!italic])),
        169 => io(term_write!(x, [yellow] ("{}", mx(v,1)) [!reverse] ("<{}|{:?}>", mx(v,3), 7) [style+=ms(v,4)])),
        170 => io(term_writeln!(x, [yellow] ("{}", mx(v,1)) [!reverse] ("<{}|{:?}>", mx(v,3), 7) [style+=ms(v,4)])),
        171 => io(term_write!(x, [black] "\u{e9}\u{4e16}" [#red] "" [#white])),
        172 => io(term_writeln!(x, [black] "\u{e9}\u{4e16}" [#red] "" [#white])),
        173 => io(term_write!(x, [reset] "\n" [underline] ("{}", mx(v,3)) [italic])),
        174 => io(term_writeln!(x, [reset] "\n" [underline] ("{}", mx(v,3)) [italic])),
        175 => io(term_write!(x, [#black] "ab" [!underline] [!bold] ("<{}|{:?}>", mx(v,4), 7))),
        176 => io(term_writeln!(x, [#black] "ab" [!underline] [!bold] ("<{}|{:?}>", mx(v,4), 7))),
        177 => io(term_write!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [green] "\u{e9}\u{4e16}" [style+=ms(v,4)])),
        178 => io(term_writeln!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [green] "\u{e9}\u{4e16}" [style+=ms(v,4)])),
        179 => io(term_write!(x, [reverse] ("<{}|{:?}>", mx(v,1), 7) [#black] (: mx(v,3)) [blue] [#green] [#white] ("no args"))),
        180 => io(term_writeln!(x, [reverse] ("<{}|{:?}>", mx(v,1), 7) [#black] (: mx(v,3)) [blue] [#green] [#white] ("no args"))),
        181 => io(term_write!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [blue] (? mx(v,3)) [!fg] ("<{}|{:?}>", mx(v,5), 7) [#black] [reverse])),
        182 => io(term_writeln!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [blue] (? mx(v,3)) [!fg] ("<{}|{:?}>", mx(v,5), 7) [#black] [reverse])),
        183 => io(term_write!(x, [!bg] [#green] [style=mos(v,2)] ("{a:>3}{b}", b=mx(v,3), a=5) [#blue] ("{{}}") [fg=mcc(v,6)] "\n")),
        184 => io(term_writeln!(x, [!bg] [#green] [style=mos(v,2)] ("{a:>3}{b}", b=mx(v,3), a=5) [#blue] ("{{}}") [fg=mcc(v,6)] "\n")),
        185 => io(term_write!(x, [white] ("{{}}") [#magenta] "" [cyan] "ab" [#yellow] "\u{e9}\u{4e16}")),
        186 => io(term_writeln!(x, [white] ("{{}}") [#magenta] "" [cyan] "ab" [#yellow] "\u{e9}\u{4e16}")),
        187 => io(term_write!(x, [#red] "x\r\ty" [style=ms(v,2)] "\n" [blue] (? mx(v,5)) [italic] [theme=mt(v,7)])),
        188 => io(term_writeln!(x, [#red] "x\r\ty" [style=ms(v,2)] "\n" [blue] (? mx(v,5)) [italic] [theme=mt(v,7)])),
        189 => io(term_write!(x, [style+=ms(v,0)] "{{" [green] ("no args") "%d\\" [bg=mcc(v,5)] [theme=mt(v,6)] "\n")),
        190 => io(term_writeln!(x, [style+=ms(v,0)] "{{" [green] ("no args") "%d\\" [bg=mcc(v,5)] [theme=mt(v,6)] "\n")),
        191 => io(term_write!(x, [italic] [white] [style+=ms(v,2)] "" [#white] ("no args") [fg=mc(v,6)] (: mx(v,7)))),
        192 => io(term_writeln!(x, [italic] [white] [style+=ms(v,2)] "" [#white] ("no args") [fg=mc(v,6)] (: mx(v,7)))),
        193 => io(term_write!(x, [bold] "c" [style+=ms(v,2)] ("{}", mx(v,3)) [!reverse] ("no args") [blue] "")),
        194 => io(term_writeln!(x, [bold] "c" [style+=ms(v,2)] ("{}", mx(v,3)) [!reverse] ("no args") [blue] "")),
        195 => io(term_write!(x, [black] ("{{}}") [style-=ms(v,2)] [magenta] [fg=mcc(v,4)] ("no args") [style=mos(v,6)] ("<{}|{:?}>", mx(v,7), 7) [#red] ("<{}|{:?}>", mx(v,9), 7) [!underline] ("{{}}") [underline] (? mx(v,13)))),
        196 => io(term_writeln!(x, [black] ("{{}}") [style-=ms(v,2)] [magenta] [fg=mcc(v,4)] ("no args") [style=mos(v,6)] ("<{}|{:?}>", mx(v,7), 7) [#red] ("<{}|{:?}>", mx(v,9), 7) [!underline] ("{{}}") [underline] (? mx(v,13)))),
        197 => io(term_write!(x, [!style] ("<{}|{:?}>", mx(v,1), 7) [italic] ("{a:>3}{b}", b=mx(v,3), a=5) [yellow] ("{}", mx(v,5)) [style=mos(v,6)] ("{a:>3}{b}", b=mx(v,7), a=5) [!underline] "\n" [#green] "\n" [#magenta] [white])),
        198 => io(term_writeln!(x, [!style] ("<{}|{:?}>", mx(v,1), 7) [italic] ("{a:>3}{b}", b=mx(v,3), a=5) [yellow] ("{}", mx(v,5)) [style=mos(v,6)] ("{a:>3}{b}", b=mx(v,7), a=5) [!underline] "\n" [#green] "\n" [#magenta] [white])),
        199 => io(term_write!(x, [#red] "\u{e9}\u{4e16}" [!reverse] [red] [red] "{}" [bg=mc(v,6)] "" [red] [magenta] [reverse] "{{" [italic] "")),
        200 => io(term_writeln!(x, [#red] "\u{e9}\u{4e16}" [!reverse] [red] [red] "{}" [bg=mc(v,6)] "" [red] [magenta] [reverse] "{{" [italic] "")),
        201 => io(term_write!(x, (: mx(v,0)) [fg=mc(v,1)] (: mx(v,2)) [style+=ms(v,3)] (: mx(v,4)))),
        202 => io(term_writeln!(x, (: mx(v,0)) [fg=mc(v,1)] (: mx(v,2)) [style+=ms(v,3)] (: mx(v,4)))),
        203 => io(term_write!(x, [fg=mc(v,0)] (: mx(v,1)) [fg=mc(v,2)] (: mx(v,3)))),
        204 => io(term_writeln!(x, [fg=mc(v,0)] (: mx(v,1)) [fg=mc(v,2)] (: mx(v,3)))),
        205 => io(term_write!(x, (: mx(v,0)) (: mx(v,1)) (: mx(v,2)))),
        206 => io(term_writeln!(x, (: mx(v,0)) (: mx(v,1)) (: mx(v,2)))),
        207 => io(term_write!(x, [style+=ms(v,0)] (: mx(v,1)))),
        208 => io(term_writeln!(x, [style+=ms(v,0)] (: mx(v,1)))),
        209 => io(term_write!(x, [fg=mc(v,0)] (: mx(v,1)) (: mx(v,2)) [fg=mc(v,3)] (: mx(v,4)) [style+=ms(v,5)] (: mx(v,6)))),
        210 => io(term_writeln!(x, [fg=mc(v,0)] (: mx(v,1)) (: mx(v,2)) [fg=mc(v,3)] (: mx(v,4)) [style+=ms(v,5)] (: mx(v,6)))),
        k => panic!("macro {}", k)
    }
}

fn mac_w(x: &mut TerminalWriteGuard, v: &Value) -> (bool, i32) {
    fn io(r: io::Result<()>) -> (bool, i32) { match r { Ok(()) => (true, 0), Err(e) => (false, e.raw_os_error().unwrap_or(-1)) } }
    match i(v, "id") {
        0 => io(term_writeln!(x)),
        1 => io(term_write!(x, [black])),
        2 => io(term_writeln!(x, [black])),
        3 => io(term_write!(x, [red])),
        4 => io(term_writeln!(x, [red])),
        5 => io(term_write!(x, [green])),
        6 => io(term_writeln!(x, [green])),
        7 => io(term_write!(x, [yellow])),
        8 => io(term_writeln!(x, [yellow])),
        9 => io(term_write!(x, [blue])),
        10 => io(term_writeln!(x, [blue])),
        11 => io(term_write!(x, [magenta])),
        12 => io(term_writeln!(x, [magenta])),
        13 => io(term_write!(x, [cyan])),
        14 => io(term_writeln!(x, [cyan])),
        15 => io(term_write!(x, [white])),
        16 => io(term_writeln!(x, [white])),
        17 => io(term_write!(x, [#black])),
        18 => io(term_writeln!(x, [#black])),
        19 => io(term_write!(x, [#red])),
        20 => io(term_writeln!(x, [#red])),
        21 => io(term_write!(x, [#green])),
        22 => io(term_writeln!(x, [#green])),
        23 => io(term_write!(x, [#yellow])),
        24 => io(term_writeln!(x, [#yellow])),
        25 => io(term_write!(x, [#blue])),
        26 => io(term_writeln!(x, [#blue])),
        27 => io(term_write!(x, [#magenta])),
        28 => io(term_writeln!(x, [#magenta])),
        29 => io(term_write!(x, [#cyan])),
        30 => io(term_writeln!(x, [#cyan])),
        31 => io(term_write!(x, [#white])),
        32 => io(term_writeln!(x, [#white])),
        33 => io(term_write!(x, [bold])),
        34 => io(term_writeln!(x, [bold])),
        35 => io(term_write!(x, [italic])),
        36 => io(term_writeln!(x, [italic])),
        37 => io(term_write!(x, [underline])),
        38 => io(term_writeln!(x, [underline])),
        39 => io(term_write!(x, [reverse])),
        40 => io(term_writeln!(x, [reverse])),
        41 => io(term_write!(x, [!bold])),
        42 => io(term_writeln!(x, [!bold])),
        43 => io(term_write!(x, [!italic])),
        44 => io(term_writeln!(x, [!italic])),
        45 => io(term_write!(x, [!underline])),
        46 => io(term_writeln!(x, [!underline])),
        47 => io(term_write!(x, [!reverse])),
        48 => io(term_writeln!(x, [!reverse])),
        49 => io(term_write!(x, [reset])),
        50 => io(term_writeln!(x, [reset])),
        51 => io(term_write!(x, [!fg])),
        52 => io(term_writeln!(x, [!fg])),
        53 => io(term_write!(x, [!bg])),
        54 => io(term_writeln!(x, [!bg])),
        55 => io(term_write!(x, [!style])),
        56 => io(term_writeln!(x, [!style])),
        57 => io(term_write!(x, [fg=mc(v,0)])),
        58 => io(term_writeln!(x, [fg=mc(v,0)])),
        59 => io(term_write!(x, [fg=mcc(v,0)])),
        60 => io(term_writeln!(x, [fg=mcc(v,0)])),
        61 => io(term_write!(x, [bg=mc(v,0)])),
        62 => io(term_writeln!(x, [bg=mc(v,0)])),
        63 => io(term_write!(x, [bg=mcc(v,0)])),
        64 => io(term_writeln!(x, [bg=mcc(v,0)])),
        65 => io(term_write!(x, [style=ms(v,0)])),
        66 => io(term_writeln!(x, [style=ms(v,0)])),
        67 => io(term_write!(x, [style=mos(v,0)])),
        68 => io(term_writeln!(x, [style=mos(v,0)])),
        69 => io(term_write!(x, [style+=ms(v,0)])),
        70 => io(term_writeln!(x, [style+=ms(v,0)])),
        71 => io(term_write!(x, [style-=ms(v,0)])),
        72 => io(term_writeln!(x, [style-=ms(v,0)])),
        73 => io(term_write!(x, [theme=mt(v,0)])),
        74 => io(term_writeln!(x, [theme=mt(v,0)])),
        75 => io(term_write!(x, (: mx(v,0)))),
        76 => io(term_writeln!(x, (: mx(v,0)))),
        77 => io(term_write!(x, (? mx(v,0)))),
        78 => io(term_writeln!(x, (? mx(v,0)))),
        79 => io(term_write!(x, ("{}", mx(v,0)))),
        80 => io(term_writeln!(x, ("{}", mx(v,0)))),
        81 => io(term_write!(x, ("<{}|{:?}>", mx(v,0), 7))),
        82 => io(term_writeln!(x, ("<{}|{:?}>", mx(v,0), 7))),
        83 => io(term_write!(x, ("{a:>3}{b}", b=mx(v,0), a=5))),
        84 => io(term_writeln!(x, ("{a:>3}{b}", b=mx(v,0), a=5))),
        85 => io(term_write!(x, ("no args"))),
        86 => io(term_writeln!(x, ("no args"))),
        87 => io(term_write!(x, ("{{}}"))),
        88 => io(term_writeln!(x, ("{{}}"))),
        89 => io(term_write!(x, "ab")),
        90 => io(term_writeln!(x, "ab")),
        91 => io(term_write!(x, "c")),
        92 => io(term_writeln!(x, "c")),
        93 => io(term_write!(x, "\n")),
        94 => io(term_writeln!(x, "\n")),
        95 => io(term_write!(x, "{}")),
        96 => io(term_writeln!(x, "{}")),
        97 => io(term_write!(x, "\u{e9}\u{4e16}")),
        98 => io(term_writeln!(x, "\u{e9}\u{4e16}")),
        99 => io(term_write!(x, "x\r\ty")),
        100 => io(term_writeln!(x, "x\r\ty")),
        101 => io(term_write!(x, "")),
        102 => io(term_writeln!(x, "")),
        103 => io(term_write!(x, "{{")),
        104 => io(term_writeln!(x, "{{")),
        105 => io(term_write!(x, "%d\\")),
        106 => io(term_writeln!(x, "%d\\")),
        107 => io(term_write!(x, ("{{}}") ("{a:>3}{b}", b=mx(v,1), a=5))),
        108 => io(term_writeln!(x, ("{{}}") ("{a:>3}{b}", b=mx(v,1), a=5))),
        109 => io(term_write!(x, [cyan] [theme=mt(v,1)])),
        110 => io(term_writeln!(x, [cyan] [theme=mt(v,1)])),
        111 => io(term_write!(x, [red] ("{}", mx(v,1)))),
        112 => io(term_writeln!(x, [red] ("{}", mx(v,1)))),
        113 => io(term_write!(x, [!bold] "{{")),
        114 => io(term_writeln!(x, [!bold] "{{")),
        115 => io(term_write!(x, [#blue] "{}")),
        116 => io(term_writeln!(x, [#blue] "{}")),
        117 => io(term_write!(x, [magenta] "%d\\")),
        118 => io(term_writeln!(x, [magenta] "%d\\")),
        119 => io(term_write!(x, [#magenta] (? mx(v,1)))),
        120 => io(term_writeln!(x, [#magenta] (? mx(v,1)))),
        121 => io(term_write!(x, [magenta] "\n")),
        122 => io(term_writeln!(x, [magenta] "\n")),
        123 => io(term_write!(x, [bold] ("<{}|{:?}>", mx(v,1), 7))),
        124 => io(term_writeln!(x, [bold] ("<{}|{:?}>", mx(v,1), 7))),
        125 => io(term_write!(x, [italic] "ab")),
        126 => io(term_writeln!(x, [italic] "ab")),
        127 => io(term_write!(x, [yellow] "\n")),
        128 => io(term_writeln!(x, [yellow] "\n")),
        129 => io(term_write!(x, [!italic] "{{")),
        130 => io(term_writeln!(x, [!italic] "{{")),
        131 => io(term_write!(x, ("<{}|{:?}>", mx(v,0), 7) "")),
        132 => io(term_writeln!(x, ("<{}|{:?}>", mx(v,0), 7) "")),
        133 => io(term_write!(x, [!fg] [white])),
        134 => io(term_writeln!(x, [!fg] [white])),
        135 => io(term_write!(x, [!style] ("<{}|{:?}>", mx(v,1), 7))),
        136 => io(term_writeln!(x, [!style] ("<{}|{:?}>", mx(v,1), 7))),
        137 => io(term_write!(x, [yellow] "")),
        138 => io(term_writeln!(x, [yellow] "")),
        139 => io(term_write!(x, [#yellow] [white] [underline])),
        140 => io(term_writeln!(x, [#yellow] [white] [underline])),
        141 => io(term_write!(x, [!bold] "x\r\ty" [style=mos(v,2)])),
        142 => io(term_writeln!(x, [!bold] "x\r\ty" [style=mos(v,2)])),
        143 => io(term_write!(x, [yellow] [#green] [fg=mcc(v,2)])),
        144 => io(term_writeln!(x, [yellow] [#green] [fg=mcc(v,2)])),
        145 => io(term_write!(x, [black] ("<{}|{:?}>", mx(v,1), 7) [bold])),
        146 => io(term_writeln!(x, [black] ("<{}|{:?}>", mx(v,1), 7) [bold])),
        147 => io(term_write!(x, [reverse] (: mx(v,1)) [style=ms(v,2)])),
        148 => io(term_writeln!(x, [reverse] (: mx(v,1)) [style=ms(v,2)])),
        149 => io(term_write!(x, [black] ("{a:>3}{b}", b=mx(v,1), a=5) [#black])),
        150 => io(term_writeln!(x, [black] ("{a:>3}{b}", b=mx(v,1), a=5) [#black])),
        151 => io(term_write!(x, [cyan] ("{{}}") [#cyan])),
        152 => io(term_writeln!(x, [cyan] ("{{}}") [#cyan])),
        153 => io(term_write!(x, [#black] ("{a:>3}{b}", b=mx(v,1), a=5) [fg=mc(v,2)])),
        154 => io(term_writeln!(x, [#black] ("{a:>3}{b}", b=mx(v,1), a=5) [fg=mc(v,2)])),
        155 => io(term_write!(x, [#yellow] "\n" [cyan])),
        156 => io(term_writeln!(x, [#yellow] "\n" [cyan])),
        157 => io(term_write!(x, [underline] "\n" [cyan])),
        158 => io(term_writeln!(x, [underline] "\n" [cyan])),
        159 => io(term_write!(x, [yellow] [!reverse] [underline] "{{" [blue])),
        160 => io(term_writeln!(x, [yellow] [!reverse] [underline] "{{" [blue])),
        161 => io(term_write!(x, [#magenta] [black] [style=mos(v,2)] "{}" [#yellow])),
        162 => io(term_writeln!(x, [#magenta] [black] [style=mos(v,2)] "{}" [#yellow])),
        163 => io(term_write!(x, [cyan] (? mx(v,1)) [#magenta] "x\r\ty" [magenta])),
        164 => io(term_writeln!(x, [cyan] (? mx(v,1)) [#magenta] "x\r\ty" [magenta])),
        165 => io(term_write!(x, [!reverse] "{{" [#black] [reset] [style-=ms(v,4)])),
        166 => io(term_writeln!(x, [!reverse] "{{" [#black] [reset] [style-=ms(v,4)])),
        167 => io(term_write!(x, [bold] "{{" [bg=mcc(v,2)] ("{{}}") [!italic])),
        168 => io(term_writeln!(x, [bold] "{{" [bg=mcc(v,2)] ("{{}}") [!italic])),
        169 => io(term_write!(x, [yellow] ("{}", mx(v,1)) [!reverse] ("<{}|{:?}>", mx(v,3), 7) [style+=ms(v,4)])),
        170 => io(term_writeln!(x, [yellow] ("{}", mx(v,1)) [!reverse] ("<{}|{:?}>", mx(v,3), 7) [style+=ms(v,4)])),
        171 => io(term_write!(x, [black] "\u{e9}\u{4e16}" [#red] "" [#white])),
        172 => io(term_writeln!(x, [black] "\u{e9}\u{4e16}" [#red] "" [#white])),
        173 => io(term_write!(x, [reset] "\n" [underline] ("{}", mx(v,3)) [italic])),
        174 => io(term_writeln!(x, [reset] "\n" [underline] ("{}", mx(v,3)) [italic])),
        175 => io(term_write!(x, [#black] "ab" [!underline] [!bold] ("<{}|{:?}>", mx(v,4), 7))),
        176 => io(term_writeln!(x, [#black] "ab" [!underline] [!bold] ("<{}|{:?}>", mx(v,4), 7))),
        177 => io(term_write!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [green] "\u{e9}\u{4e16}" [style+=ms(v,4)])),
        178 => io(term_writeln!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [green] "\u{e9}\u{4e16}" [style+=ms(v,4)])),
        179 => io(term_write!(x, [reverse] ("<{}|{:?}>", mx(v,1), 7) [#black] (: mx(v,3)) [blue] [#green] [#white] ("no args"))),
        180 => io(term_writeln!(x, [reverse] ("<{}|{:?}>", mx(v,1), 7) [#black] (: mx(v,3)) [blue] [#green] [#white] ("no args"))),
        181 => io(term_write!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [blue] (? mx(v,3)) [!fg] ("<{}|{:?}>", mx(v,5), 7) [#black] [reverse])),
        182 => io(term_writeln!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [blue] (? mx(v,3)) [!fg] ("<{}|{:?}>", mx(v,5), 7) [#black] [reverse])),
        183 => io(term_write!(x, [!bg] [#green] [style=mos(v,2)] ("{a:>3}{b}", b=mx(v,3), a=5) [#blue] ("{{}}") [fg=mcc(v,6)] "\n")),
        184 => io(term_writeln!(x, [!bg] [#green] [style=mos(v,2)] ("{a:>3}{b}", b=mx(v,3), a=5) [#blue] ("{{}}") [fg=mcc(v,6)] "\n")),
        185 => io(term_write!(x, [white] ("{{}}") [#magenta] "" [cyan] "ab" [#yellow] "\u{e9}\u{4e16}")),
        186 => io(term_writeln!(x, [white] ("{{}}") [#magenta] "" [cyan] "ab" [#yellow] "\u{e9}\u{4e16}")),
        187 => io(term_write!(x, [#red] "x\r\ty" [style=ms(v,2)] "\n" [blue] (? mx(v,5)) [italic] [theme=mt(v,7)])),
        188 => io(term_writeln!(x, [#red] "x\r\ty" [style=ms(v,2)] "\n" [blue] (? mx(v,5)) [italic] [theme=mt(v,7)])),
        189 => io(term_write!(x, [style+=ms(v,0)] "{{" [green] ("no args") "%d\\" [bg=mcc(v,5)] [theme=mt(v,6)] "\n")),
        190 => io(term_writeln!(x, [style+=ms(v,0)] "{{" [green] ("no args") "%d\\" [bg=mcc(v,5)] [theme=mt(v,6)] "\n")),
        191 => io(term_write!(x, [italic] [white] [style+=ms(v,2)] "" [#white] ("no args") [fg=mc(v,6)] (: mx(v,7)))),
        192 => io(term_writeln!(x, [italic] [white] [style+=ms(v,2)] "" [#white] ("no args") [fg=mc(v,6)] (: mx(v,7)))),
        193 => io(term_write!(x, [bold] "c" [style+=ms(v,2)] ("{}", mx(v,3)) [!reverse] ("no args") [blue] "")),
        194 => io(term_writeln!(x, [bold] "c" [style+=ms(v,2)] ("{}", mx(v,3)) [!reverse] ("no args") [blue] "")),
        195 => io(term_write!(x, [black] ("{{}}") [style-=ms(v,2)] [magenta] [fg=mcc(v,4)] ("no args") [style=mos(v,6)] ("<{}|{:?}>", mx(v,7), 7) [#red] ("<{}|{:?}>", mx(v,9), 7) [!underline] ("{{}}") [underline] (? mx(v,13)))),
        196 => io(term_writeln!(x, [black] ("{{}}") [style-=ms(v,2)] [magenta] [fg=mcc(v,4)] ("no args") [style=mos(v,6)] ("<{}|{:?}>", mx(v,7), 7) [#red] ("<{}|{:?}>", mx(v,9), 7) [!underline] ("{{}}") [underline] (? mx(v,13)))),
        197 => io(term_write!(x, [!style] ("<{}|{:?}>", mx(v,1), 7) [italic] ("{a:>3}{b}", b=mx(v,3), a=5) [yellow] ("{}", mx(v,5)) [style=mos(v,6)] ("{a:>3}{b}", b=mx(v,7), a=5) [!underline] "\n" [#green] "\n" [#magenta] [white])),
        198 => io(term_writeln!(x, [!style] ("<{}|{:?}>", mx(v,1), 7) [italic] ("{a:>3}{b}", b=mx(v,3), a=5) [yellow] ("{}", mx(v,5)) [style=mos(v,6)] ("{a:>3}{b}", b=mx(v,7), a=5) [!underline] "\n" [#green] "\n" [#magenta] [white])),
        199 => io(term_write!(x, [#red] "\u{e9}\u{4e16}" [!reverse] [red] [red] "{}" [bg=mc(v,6)] "" [red] [magenta] [reverse] "{{" [italic] "")),
        200 => io(term_writeln!(x, [#red] "\u{e9}\u{4e16}" [!reverse] [red] [red] "{}" [bg=mc(v,6)] "" [red] [magenta] [reverse] "{{" [italic] "")),
        201 => io(term_write!(x, (: mx(v,0)) [fg=mc(v,1)] (: mx(v,2)) [style+=ms(v,3)] (: mx(v,4)))),
        202 => io(term_writeln!(x, (: mx(v,0)) [fg=mc(v,1)] (: mx(v,2)) [style+=ms(v,3)] (: mx(v,4)))),
        203 => io(term_write!(x, [fg=mc(v,0)] (: mx(v,1)) [fg=mc(v,2)] (: mx(v,3)))),
        204 => io(term_writeln!(x, [fg=mc(v,0)] (: mx(v,1)) [fg=mc(v,2)] (: mx(v,3)))),
        205 => io(term_write!(x, (: mx(v,0)) (: mx(v,1)) (: mx(v,2)))),
        206 => io(term_writeln!(x, (: mx(v,0)) (: mx(v,1)) (: mx(v,2)))),
        207 => io(term_write!(x, [style+=ms(v,0)] (: mx(v,1)))),
        208 => io(term_writeln!(x, [style+=ms(v,0)] (: mx(v,1)))),
        209 => io(term_write!(x, [fg=mc(v,0)] (: mx(v,1)) (: mx(v,2)) [fg=mc(v,3)] (: mx(v,4)) [style+=ms(v,5)] (: mx(v,6)))),
        210 => io(term_writeln!(x, [fg=mc(v,0)] (: mx(v,1)) (: mx(v,2)) [fg=mc(v,3)] (: mx(v,4)) [style+=ms(v,5)] (: mx(v,6)))),
        k => panic!("macro {}", k)
    }
}

fn mac_s(x: &Screen, v: &Value) -> (bool, i32) {
    fn no(_: ()) -> (bool, i32) { (true, 0) }
    match i(v, "id") {
        0 => no(term_writeln!(x)),
        1 => no(term_write!(x, [black])),
        2 => no(term_writeln!(x, [black])),
        3 => no(term_write!(x, [red])),
        4 => no(term_writeln!(x, [red])),
        5 => no(term_write!(x, [green])),
        6 => no(term_writeln!(x, [green])),
        7 => no(term_write!(x, [yellow])),
        8 => no(term_writeln!(x, [yellow])),
        9 => no(term_write!(x, [blue])),
        10 => no(term_writeln!(x, [blue])),
        11 => no(term_write!(x, [magenta])),
        12 => no(term_writeln!(x, [magenta])),
        13 => no(term_write!(x, [cyan])),
        14 => no(term_writeln!(x, [cyan])),
        15 => no(term_write!(x, [white])),
        16 => no(term_writeln!(x, [white])),
        17 => no(term_write!(x, [#black])),
        18 => no(term_writeln!(x, [#black])),
        19 => no(term_write!(x, [#red])),
        20 => no(term_writeln!(x, [#red])),
        21 => no(term_write!(x, [#green])),
        22 => no(term_writeln!(x, [#green])),
        23 => no(term_write!(x, [#yellow])),
        24 => no(term_writeln!(x, [#yellow])),
        25 => no(term_write!(x, [#blue])),
        26 => no(term_writeln!(x, [#blue])),
        27 => no(term_write!(x, [#magenta])),
        28 => no(term_writeln!(x, [#magenta])),
        29 => no(term_write!(x, [#cyan])),
        30 => no(term_writeln!(x, [#cyan])),
        31 => no(term_write!(x, [#white])),
        32 => no(term_writeln!(x, [#white])),
        33 => no(term_write!(x, [bold])),
        34 => no(term_writeln!(x, [bold])),
        35 => no(term_write!(x, [italic])),
        36 => no(term_writeln!(x, [italic])),
        37 => no(term_write!(x, [underline])),
        38 => no(term_writeln!(x, [underline])),
        39 => no(term_write!(x, [reverse])),
        40 => no(term_writeln!(x, [reverse])),
        41 => no(term_write!(x, [!bold])),
        42 => no(term_writeln!(x, [!bold])),
        43 => no(term_write!(x, [!italic])),
        44 => no(term_writeln!(x, [!italic])),
        45 => no(term_write!(x, [!underline])),
        46 => no(term_writeln!(x, [!underline])),
        47 => no(term_write!(x, [!reverse])),
        48 => no(term_writeln!(x, [!reverse])),
        49 => no(term_write!(x, [reset])),
        50 => no(term_writeln!(x, [reset])),
        51 => no(term_write!(x, [!fg])),
        52 => no(term_writeln!(x, [!fg])),
        53 => no(term_write!(x, [!bg])),
        54 => no(term_writeln!(x, [!bg])),
        55 => no(term_write!(x, [!style])),
        56 => no(term_writeln!(x, [!style])),
        57 => no(term_write!(x, [fg=mc(v,0)])),
        58 => no(term_writeln!(x, [fg=mc(v,0)])),
        59 => no(term_write!(x, [fg=mcc(v,0)])),
        60 => no(term_writeln!(x, [fg=mcc(v,0)])),
        61 => no(term_write!(x, [bg=mc(v,0)])),
        62 => no(term_writeln!(x, [bg=mc(v,0)])),
        63 => no(term_write!(x, [bg=mcc(v,0)])),
        64 => no(term_writeln!(x, [bg=mcc(v,0)])),
        65 => no(term_write!(x, [style=ms(v,0)])),
        66 => no(term_writeln!(x, [style=ms(v,0)])),
        67 => no(term_write!(x, [style=mos(v,0)])),
        68 => no(term_writeln!(x, [style=mos(v,0)])),
        69 => no(term_write!(x, [style+=ms(v,0)])),
        70 => no(term_writeln!(x, [style+=ms(v,0)])),
        71 => no(term_write!(x, [style-=ms(v,0)])),
        72 => no(term_writeln!(x, [style-=ms(v,0)])),
        73 => no(term_write!(x, [theme=mt(v,0)])),
        74 => no(term_writeln!(x, [theme=mt(v,0)])),
        75 => no(term_write!(x, (: mx(v,0)))),
        76 => no(term_writeln!(x, (: mx(v,0)))),
        77 => no(term_write!(x, (? mx(v,0)))),
        78 => no(term_writeln!(x, (? mx(v,0)))),
        79 => no(term_write!(x, ("{}", mx(v,0)))),
        80 => no(term_writeln!(x, ("{}", mx(v,0)))),
        81 => no(term_write!(x, ("<{}|{:?}>", mx(v,0), 7))),
        82 => no(term_writeln!(x, ("<{}|{:?}>", mx(v,0), 7))),
        83 => no(term_write!(x, ("{a:>3}{b}", b=mx(v,0), a=5))),
        84 => no(term_writeln!(x, ("{a:>3}{b}", b=mx(v,0), a=5))),
        85 => no(term_write!(x, ("no args"))),
        86 => no(term_writeln!(x, ("no args"))),
        87 => no(term_write!(x, ("{{}}"))),
        88 => no(term_writeln!(x, ("{{}}"))),
        89 => no(term_write!(x, "ab")),
        90 => no(term_writeln!(x, "ab")),
        91 => no(term_write!(x, "c")),
        92 => no(term_writeln!(x, "c")),
        93 => no(term_write!(x, "\n")),
        94 => no(term_writeln!(x, "\n")),
        95 => no(term_write!(x, "{}")),
        96 => no(term_writeln!(x, "{}")),
        97 => no(term_write!(x, "\u{e9}\u{4e16}")),
        98 => no(term_writeln!(x, "\u{e9}\u{4e16}")),
        99 => no(term_write!(x, "x\r\ty")),
        100 => no(term_writeln!(x, "x\r\ty")),
        101 => no(term_write!(x, "")),
        102 => no(term_writeln!(x, "")),
        103 => no(term_write!(x, "{{")),
        104 => no(term_writeln!(x, "{{")),
        105 => no(term_write!(x, "%d\\")),
        106 => no(term_writeln!(x, "%d\\")),
        107 => no(term_write!(x, ("{{}}") ("{a:>3}{b}", b=mx(v,1), a=5))),
        108 => no(term_writeln!(x, ("{{}}") ("{a:>3}{b}", b=mx(v,1), a=5))),
        109 => no(term_write!(x, [cyan] [theme=mt(v,1)])),
        110 => no(term_writeln!(x, [cyan] [theme=mt(v,1)])),
        111 => no(term_write!(x, [red] ("{}", mx(v,1)))),
        112 => no(term_writeln!(x, [red] ("{}", mx(v,1)))),
        113 => no(term_write!(x, [!bold] "{{")),
        114 => no(term_writeln!(x, [!bold] "{{")),
        115 => no(term_write!(x, [#blue] "{}")),
        116 => no(term_writeln!(x, [#blue] "{}")),
        117 => no(term_write!(x, [magenta] "%d\\")),
        118 => no(term_writeln!(x, [magenta] "%d\\")),
        119 => no(term_write!(x, [#magenta] (? mx(v,1)))),
        120 => no(term_writeln!(x, [#magenta] (? mx(v,1)))),
        121 => no(term_write!(x, [magenta] "\n")),
        122 => no(term_writeln!(x, [magenta] "\n")),
        123 => no(term_write!(x, [bold] ("<{}|{:?}>", mx(v,1), 7))),
        124 => no(term_writeln!(x, [bold] ("<{}|{:?}>", mx(v,1), 7))),
        125 => no(term_write!(x, [italic] "ab")),
        126 => no(term_writeln!(x, [italic] "ab")),
        127 => no(term_write!(x, [yellow] "\n")),
        128 => no(term_writeln!(x, [yellow] "\n")),
        129 => no(term_write!(x, [!italic] "{{")),
        130 => no(term_writeln!(x, [!italic] "{{")),
        131 => no(term_write!(x, ("<{}|{:?}>", mx(v,0), 7) "")),
        132 => no(term_writeln!(x, ("<{}|{:?}>", mx(v,0), 7) "")),
        133 => no(term_write!(x, [!fg] [white])),
        134 => no(term_writeln!(x, [!fg] [white])),
        135 => no(term_write!(x, [!style] ("<{}|{:?}>", mx(v,1), 7))),
        136 => no(term_writeln!(x, [!style] ("<{}|{:?}>", mx(v,1), 7))),
        137 => no(term_write!(x, [yellow] "")),
        138 => no(term_writeln!(x, [yellow] "")),
        139 => no(term_write!(x, [#yellow] [white] [underline])),
        140 => no(term_writeln!(x, [#yellow] [white] [underline])),
        141 => no(term_write!(x, [!bold] "x\r\ty" [style=mos(v,2)])),
        142 => no(term_writeln!(x, [!bold] "x\r\ty" [style=mos(v,2)])),
        143 => no(term_write!(x, [yellow] [#green] [fg=mcc(v,2)])),
        144 => no(term_writeln!(x, [yellow] [#green] [fg=mcc(v,2)])),
        145 => no(term_write!(x, [black] ("<{}|{:?}>", mx(v,1), 7) [bold])),
        146 => no(term_writeln!(x, [black] ("<{}|{:?}>", mx(v,1), 7) [bold])),
        147 => no(term_write!(x, [reverse] (: mx(v,1)) [style=ms(v,2)])),
        148 => no(term_writeln!(x, [reverse] (: mx(v,1)) [style=ms(v,2)])),
        149 => no(term_write!(x, [black] ("{a:>3}{b}", b=mx(v,1), a=5) [#black])),
        150 => no(term_writeln!(x, [black] ("{a:>3}{b}", b=mx(v,1), a=5) [#black])),
        151 => no(term_write!(x, [cyan] ("{{}}") [#cyan])),
        152 => no(term_writeln!(x, [cyan] ("{{}}") [#cyan])),
        153 => no(term_write!(x, [#black] ("{a:>3}{b}", b=mx(v,1), a=5) [fg=mc(v,2)])),
        154 => no(term_writeln!(x, [#black] ("{a:>3}{b}", b=mx(v,1), a=5) [fg=mc(v,2)])),
        155 => no(term_write!(x, [#yellow] "\n" [cyan])),
        156 => no(term_writeln!(x, [#yellow] "\n" [cyan])),
        157 => no(term_write!(x, [underline] "\n" [cyan])),
        158 => no(term_writeln!(x, [underline] "\n" [cyan])),
        159 => no(term_write!(x, [yellow] [!reverse] [underline] "{{" [blue])),
        160 => no(term_writeln!(x, [yellow] [!reverse] [underline] "{{" [blue])),
        161 => no(term_write!(x, [#magenta] [black] [style=mos(v,2)] "{}" [#yellow])),
        162 => no(term_writeln!(x, [#magenta] [black] [style=mos(v,2)] "{}" [#yellow])),
        163 => no(term_write!(x, [cyan] (? mx(v,1)) [#magenta] "x\r\ty" [magenta])),
        164 => no(term_writeln!(x, [cyan] (? mx(v,1)) [#magenta] "x\r\ty" [magenta])),
        165 => no(term_write!(x, [!reverse] "{{" [#black] [reset] [style-=ms(v,4)])),
        166 => no(term_writeln!(x, [!reverse] "{{" [#black] [reset] [style-=ms(v,4)])),
        167 => no(term_write!(x, [bold] "{{" [bg=mcc(v,2)] ("{{}}") [!italic])),
        168 => no(term_writeln!(x, [bold] "{{" [bg=mcc(v,2)] ("{{}}") [!italic])),
        169 => no(term_write!(x, [yellow] ("{}", mx(v,1)) [!reverse] ("<{}|{:?}>", mx(v,3), 7) [style+=ms(v,4)])),
        170 => no(term_writeln!(x, [yellow] ("{}", mx(v,1)) [!reverse] ("<{}|{:?}>", mx(v,3), 7) [style+=ms(v,4)])),
        171 => no(term_write!(x, [black] "\u{e9}\u{4e16}" [#red] "" [#white])),
        172 => no(term_writeln!(x, [black] "\u{e9}\u{4e16}" [#red] "" [#white])),
        173 => no(term_write!(x, [reset] "\n" [underline] ("{}", mx(v,3)) [italic])),
        174 => no(term_writeln!(x, [reset] "\n" [underline] ("{}", mx(v,3)) [italic])),
        175 => no(term_write!(x, [#black] "ab" [!underline] [!bold] ("<{}|{:?}>", mx(v,4), 7))),
        176 => no(term_writeln!(x, [#black] "ab" [!underline] [!bold] ("<{}|{:?}>", mx(v,4), 7))),
        177 => no(term_write!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [green] "\u{e9}\u{4e16}" [style+=ms(v,4)])),
        178 => no(term_writeln!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [green] "\u{e9}\u{4e16}" [style+=ms(v,4)])),
        179 => no(term_write!(x, [reverse] ("<{}|{:?}>", mx(v,1), 7) [#black] (: mx(v,3)) [blue] [#green] [#white] ("no args"))),
        180 => no(term_writeln!(x, [reverse] ("<{}|{:?}>", mx(v,1), 7) [#black] (: mx(v,3)) [blue] [#green] [#white] ("no args"))),
        181 => no(term_write!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [blue] (? mx(v,3)) [!fg] ("<{}|{:?}>", mx(v,5), 7) [#black] [reverse])),
        182 => no(term_writeln!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [blue] (? mx(v,3)) [!fg] ("<{}|{:?}>", mx(v,5), 7) [#black] [reverse])),
        183 => no(term_write!(x, [!bg] [#green] [style=mos(v,2)] ("{a:>3}{b}", b=mx(v,3), a=5) [#blue] ("{{}}") [fg=mcc(v,6)] "\n")),
        184 => no(term_writeln!(x, [!bg] [#green] [style=mos(v,2)] ("{a:>3}{b}", b=mx(v,3), a=5) [#blue] ("{{}}") [fg=mcc(v,6)] "\n")),
        185 => no(term_write!(x, [white] ("{{}}") [#magenta] "" [cyan] "ab" [#yellow] "\u{e9}\u{4e16}")),
        186 => no(term_writeln!(x, [white] ("{{}}") [#magenta] "" [cyan] "ab" [#yellow] "\u{e9}\u{4e16}")),
        187 => no(term_write!(x, [#red] "x\r\ty" [style=ms(v,2)] "\n" [blue] (? mx(v,5)) [italic] [theme=mt(v,7)])),
        188 => no(term_writeln!(x, [#red] "x\r\ty" [style=ms(v,2)] "\n" [blue] (? mx(v,5)) [italic] [theme=mt(v,7)])),
        189 => no(term_write!(x, [style+=ms(v,0)] "{{" [green] ("no args") "%d\\" [bg=mcc(v,5)] [theme=mt(v,6)] "\n")),
        190 => no(term_writeln!(x, [style+=ms(v,0)] "{{" [green] ("no args") "%d\\" [bg=mcc(v,5)] [theme=mt(v,6)] "\n")),
        191 => no(term_write!(x, [italic] [white] [style+=ms(v,2)] "" [#white] ("no args") [fg=mc(v,6)] (: mx(v,7)))),
        192 => no(term_writeln!(x, [italic] [white] [style+=ms(v,2)] "" [#white] ("no args") [fg=mc(v,6)] (: mx(v,7)))),
        193 => no(term_write!(x, [bold] "c" [style+=ms(v,2)] ("{}", mx(v,3)) [!reverse] ("no args") [blue] "")),
        194 => no(term_writeln!(x, [bold] "c" [style+=ms(v,2)] ("{}", mx(v,3)) [!reverse] ("no args") [blue] "")),
        195 => no(term_write!(x, [black] ("{{}}") [style-=ms(v,2)] [magenta] [fg=mcc(v,4)] ("no args") [style=mos(v,6)] ("<{}|{:?}>", mx(v,7), 7) [#red] ("<{}|{:?}>", mx(v,9), 7) [!underline] ("{{}}") [underline] (? mx(v,13)))),
        196 => no(term_writeln!(x, [black] ("{{}}") [style-=ms(v,2)] [magenta] [fg=mcc(v,4)] ("no args") [style=mos(v,6)] ("<{}|{:?}>", mx(v,7), 7) [#red] ("<{}|{:?}>", mx(v,9), 7) [!underline] ("{{}}") [underline] (? mx(v,13)))),
        197 => no(term_write!(x, [!style] ("<{}|{:?}>", mx(v,1), 7) [italic] ("{a:>3}{b}", b=mx(v,3), a=5) [yellow] ("{}", mx(v,5)) [style=mos(v,6)] ("{a:>3}{b}", b=mx(v,7), a=5) [!underline] "\n" [#green] "\n" [#magenta] [white])),
        198 => no(term_writeln!(x, [!style] ("<{}|{:?}>", mx(v,1), 7) [italic] ("{a:>3}{b}", b=mx(v,3), a=5) [yellow] ("{}", mx(v,5)) [style=mos(v,6)] ("{a:>3}{b}", b=mx(v,7), a=5) [!underline] "\n" [#green] "\n" [#magenta] [white])),
        199 => no(term_write!(x, [#red] "\u{e9}\u{4e16}" [!reverse] [red] [red] "{}" [bg=mc(v,6)] "" [red] [magenta] [reverse] "{{" [italic] "")),
        200 => no(term_writeln!(x, [#red] "\u{e9}\u{4e16}" [!reverse] [red] [red] "{}" [bg=mc(v,6)] "" [red] [magenta] [reverse] "{{" [italic] "")),
        201 => no(term_write!(x, (: mx(v,0)) [fg=mc(v,1)] (: mx(v,2)) [style+=ms(v,3)] (: mx(v,4)))),
        202 => no(term_writeln!(x, (: mx(v,0)) [fg=mc(v,1)] (: mx(v,2)) [style+=ms(v,3)] (: mx(v,4)))),
        203 => no(term_write!(x, [fg=mc(v,0)] (: mx(v,1)) [fg=mc(v,2)] (: mx(v,3)))),
        204 => no(term_writeln!(x, [fg=mc(v,0)] (: mx(v,1)) [fg=mc(v,2)] (: mx(v,3)))),
        205 => no(term_write!(x, (: mx(v,0)) (: mx(v,1)) (: mx(v,2)))),
        206 => no(term_writeln!(x, (: mx(v,0)) (: mx(v,1)) (: mx(v,2)))),
        207 => no(term_write!(x, [style+=ms(v,0)] (: mx(v,1)))),
        208 => no(term_writeln!(x, [style+=ms(v,0)] (: mx(v,1)))),
        209 => no(term_write!(x, [fg=mc(v,0)] (: mx(v,1)) (: mx(v,2)) [fg=mc(v,3)] (: mx(v,4)) [style+=ms(v,5)] (: mx(v,6)))),
        210 => no(term_writeln!(x, [fg=mc(v,0)] (: mx(v,1)) (: mx(v,2)) [fg=mc(v,3)] (: mx(v,4)) [style+=ms(v,5)] (: mx(v,6)))),
        k => panic!("macro {}", k)
    }
}

fn mac_g(x: &mut ScreenWriteGuard, v: &Value) -> (bool, i32) {
    fn no(_: ()) -> (bool, i32) { (true, 0) }
    match i(v, "id") {
        0 => no(term_writeln!(x)),
        1 => no(term_write!(x, [black])),
        2 => no(term_writeln!(x, [black])),
        3 => no(term_write!(x, [red])),
        4 => no(term_writeln!(x, [red])),
        5 => no(term_write!(x, [green])),
        6 => no(term_writeln!(x, [green])),
        7 => no(term_write!(x, [yellow])),
        8 => no(term_writeln!(x, [yellow])),
        9 => no(term_write!(x, [blue])),
        10 => no(term_writeln!(x, [blue])),
        11 => no(term_write!(x, [magenta])),
        12 => no(term_writeln!(x, [magenta])),
        13 => no(term_write!(x, [cyan])),
        14 => no(term_writeln!(x, [cyan])),
        15 => no(term_write!(x, [white])),
        16 => no(term_writeln!(x, [white])),
        17 => no(term_write!(x, [#black])),
        18 => no(term_writeln!(x, [#black])),
        19 => no(term_write!(x, [#red])),
        20 => no(term_writeln!(x, [#red])),
        21 => no(term_write!(x, [#green])),
        22 => no(term_writeln!(x, [#green])),
        23 => no(term_write!(x, [#yellow])),
        24 => no(term_writeln!(x, [#yellow])),
        25 => no(term_write!(x, [#blue])),
        26 => no(term_writeln!(x, [#blue])),
        27 => no(term_write!(x, [#magenta])),
        28 => no(term_writeln!(x, [#magenta])),
        29 => no(term_write!(x, [#cyan])),
        30 => no(term_writeln!(x, [#cyan])),
        31 => no(term_write!(x, [#white])),
        32 => no(term_writeln!(x, [#white])),
        33 => no(term_write!(x, [bold])),
        34 => no(term_writeln!(x, [bold])),
        35 => no(term_write!(x, [italic])),
        36 => no(term_writeln!(x, [italic])),
        37 => no(term_write!(x, [underline])),
        38 => no(term_writeln!(x, [underline])),
        39 => no(term_write!(x, [reverse])),
        40 => no(term_writeln!(x, [reverse])),
        41 => no(term_write!(x, [!bold])),
        42 => no(term_writeln!(x, [!bold])),
        43 => no(term_write!(x, [!italic])),
        44 => no(term_writeln!(x, [!italic])),
        45 => no(term_write!(x, [!underline])),
        46 => no(term_writeln!(x, [!underline])),
        47 => no(term_write!(x, [!reverse])),
        48 => no(term_writeln!(x, [!reverse])),
        49 => no(term_write!(x, [reset])),
        50 => no(term_writeln!(x, [reset])),
        51 => no(term_write!(x, [!fg])),
        52 => no(term_writeln!(x, [!fg])),
        53 => no(term_write!(x, [!bg])),
        54 => no(term_writeln!(x, [!bg])),
        55 => no(term_write!(x, [!style])),
        56 => no(term_writeln!(x, [!style])),
        57 => no(term_write!(x, [fg=mc(v,0)])),
        58 => no(term_writeln!(x, [fg=mc(v,0)])),
        59 => no(term_write!(x, [fg=mcc(v,0)])),
        60 => no(term_writeln!(x, [fg=mcc(v,0)])),
        61 => no(term_write!(x, [bg=mc(v,0)])),
        62 => no(term_writeln!(x, [bg=mc(v,0)])),
        63 => no(term_write!(x, [bg=mcc(v,0)])),
        64 => no(term_writeln!(x, [bg=mcc(v,0)])),
        65 => no(term_write!(x, [style=ms(v,0)])),
        66 => no(term_writeln!(x, [style=ms(v,0)])),
        67 => no(term_write!(x, [style=mos(v,0)])),
        68 => no(term_writeln!(x, [style=mos(v,0)])),
        69 => no(term_write!(x, [style+=ms(v,0)])),
        70 => no(term_writeln!(x, [style+=ms(v,0)])),
        71 => no(term_write!(x, [style-=ms(v,0)])),
        72 => no(term_writeln!(x, [style-=ms(v,0)])),
        73 => no(term_write!(x, [theme=mt(v,0)])),
        74 => no(term_writeln!(x, [theme=mt(v,0)])),
        75 => no(term_write!(x, (: mx(v,0)))),
        76 => no(term_writeln!(x, (: mx(v,0)))),
        77 => no(term_write!(x, (? mx(v,0)))),
        78 => no(term_writeln!(x, (? mx(v,0)))),
        79 => no(term_write!(x, ("{}", mx(v,0)))),
        80 => no(term_writeln!(x, ("{}", mx(v,0)))),
        81 => no(term_write!(x, ("<{}|{:?}>", mx(v,0), 7))),
        82 => no(term_writeln!(x, ("<{}|{:?}>", mx(v,0), 7))),
        83 => no(term_write!(x, ("{a:>3}{b}", b=mx(v,0), a=5))),
        84 => no(term_writeln!(x, ("{a:>3}{b}", b=mx(v,0), a=5))),
        85 => no(term_write!(x, ("no args"))),
        86 => no(term_writeln!(x, ("no args"))),
        87 => no(term_write!(x, ("{{}}"))),
        88 => no(term_writeln!(x, ("{{}}"))),
        89 => no(term_write!(x, "ab")),
        90 => no(term_writeln!(x, "ab")),
        91 => no(term_write!(x, "c")),
        92 => no(term_writeln!(x, "c")),
        93 => no(term_write!(x, "\n")),
        94 => no(term_writeln!(x, "\n")),
        95 => no(term_write!(x, "{}")),
        96 => no(term_writeln!(x, "{}")),
        97 => no(term_write!(x, "\u{e9}\u{4e16}")),
        98 => no(term_writeln!(x, "\u{e9}\u{4e16}")),
        99 => no(term_write!(x, "x\r\ty")),
        100 => no(term_writeln!(x, "x\r\ty")),
        101 => no(term_write!(x, "")),
        102 => no(term_writeln!(x, "")),
        103 => no(term_write!(x, "{{")),
        104 => no(term_writeln!(x, "{{")),
        105 => no(term_write!(x, "%d\\")),
        106 => no(term_writeln!(x, "%d\\")),
        107 => no(term_write!(x, ("{{}}") ("{a:>3}{b}", b=mx(v,1), a=5))),
        108 => no(term_writeln!(x, ("{{}}") ("{a:>3}{b}", b=mx(v,1), a=5))),
        109 => no(term_write!(x, [cyan] [theme=mt(v,1)])),
        110 => no(term_writeln!(x, [cyan] [theme=mt(v,1)])),
        111 => no(term_write!(x, [red] ("{}", mx(v,1)))),
        112 => no(term_writeln!(x, [red] ("{}", mx(v,1)))),
        113 => no(term_write!(x, [!bold] "{{")),
        114 => no(term_writeln!(x, [!bold] "{{")),
        115 => no(term_write!(x, [#blue] "{}")),
        116 => no(term_writeln!(x, [#blue] "{}")),
        117 => no(term_write!(x, [magenta] "%d\\")),
        118 => no(term_writeln!(x, [magenta] "%d\\")),
        119 => no(term_write!(x, [#magenta] (? mx(v,1)))),
        120 => no(term_writeln!(x, [#magenta] (? mx(v,1)))),
        121 => no(term_write!(x, [magenta] "\n")),
        122 => no(term_writeln!(x, [magenta] "\n")),
        123 => no(term_write!(x, [bold] ("<{}|{:?}>", mx(v,1), 7))),
        124 => no(term_writeln!(x, [bold] ("<{}|{:?}>", mx(v,1), 7))),
        125 => no(term_write!(x, [italic] "ab")),
        126 => no(term_writeln!(x, [italic] "ab")),
        127 => no(term_write!(x, [yellow] "\n")),
        128 => no(term_writeln!(x, [yellow] "\n")),
        129 => no(term_write!(x, [!italic] "{{")),
        130 => no(term_writeln!(x, [!italic] "{{")),
        131 => no(term_write!(x, ("<{}|{:?}>", mx(v,0), 7) "")),
        132 => no(term_writeln!(x, ("<{}|{:?}>", mx(v,0), 7) "")),
        133 => no(term_write!(x, [!fg] [white])),
        134 => no(term_writeln!(x, [!fg] [white])),
        135 => no(term_write!(x, [!style] ("<{}|{:?}>", mx(v,1), 7))),
        136 => no(term_writeln!(x, [!style] ("<{}|{:?}>", mx(v,1), 7))),
        137 => no(term_write!(x, [yellow] "")),
        138 => no(term_writeln!(x, [yellow] "")),
        139 => no(term_write!(x, [#yellow] [white] [underline])),
        140 => no(term_writeln!(x, [#yellow] [white] [underline])),
        141 => no(term_write!(x, [!bold] "x\r\ty" [style=mos(v,2)])),
        142 => no(term_writeln!(x, [!bold] "x\r\ty" [style=mos(v,2)])),
        143 => no(term_write!(x, [yellow] [#green] [fg=mcc(v,2)])),
        144 => no(term_writeln!(x, [yellow] [#green] [fg=mcc(v,2)])),
        145 => no(term_write!(x, [black] ("<{}|{:?}>", mx(v,1), 7) [bold])),
        146 => no(term_writeln!(x, [black] ("<{}|{:?}>", mx(v,1), 7) [bold])),
        147 => no(term_write!(x, [reverse] (: mx(v,1)) [style=ms(v,2)])),
        148 => no(term_writeln!(x, [reverse] (: mx(v,1)) [style=ms(v,2)])),
        149 => no(term_write!(x, [black] ("{a:>3}{b}", b=mx(v,1), a=5) [#black])),
        150 => no(term_writeln!(x, [black] ("{a:>3}{b}", b=mx(v,1), a=5) [#black])),
        151 => no(term_write!(x, [cyan] ("{{}}") [#cyan])),
        152 => no(term_writeln!(x, [cyan] ("{{}}") [#cyan])),
        153 => no(term_write!(x, [#black] ("{a:>3}{b}", b=mx(v,1), a=5) [fg=mc(v,2)])),
        154 => no(term_writeln!(x, [#black] ("{a:>3}{b}", b=mx(v,1), a=5) [fg=mc(v,2)])),
        155 => no(term_write!(x, [#yellow] "\n" [cyan])),
        156 => no(term_writeln!(x, [#yellow] "\n" [cyan])),
        157 => no(term_write!(x, [underline] "\n" [cyan])),
        158 => no(term_writeln!(x, [underline] "\n" [cyan])),
        159 => no(term_write!(x, [yellow] [!reverse] [underline] "{{" [blue])),
        160 => no(term_writeln!(x, [yellow] [!reverse] [underline] "{{" [blue])),
        161 => no(term_write!(x, [#magenta] [black] [style=mos(v,2)] "{}" [#yellow])),
        162 => no(term_writeln!(x, [#magenta] [black] [style=mos(v,2)] "{}" [#yellow])),
        163 => no(term_write!(x, [cyan] (? mx(v,1)) [#magenta] "x\r\ty" [magenta])),
        164 => no(term_writeln!(x, [cyan] (? mx(v,1)) [#magenta] "x\r\ty" [magenta])),
        165 => no(term_write!(x, [!reverse] "{{" [#black] [reset] [style-=ms(v,4)])),
        166 => no(term_writeln!(x, [!reverse] "{{" [#black] [reset] [style-=ms(v,4)])),
        167 => no(term_write!(x, [bold] "{{" [bg=mcc(v,2)] ("{{}}") [!italic])),
        168 => no(term_writeln!(x, [bold] "{{" [bg=mcc(v,2)] ("{{}}") [!italic])),
        169 => no(term_write!(x, [yellow] ("{}", mx(v,1)) [!reverse] ("<{}|{:?}>", mx(v,3), 7) [style+=ms(v,4)])),
        170 => no(term_writeln!(x, [yellow] ("{}", mx(v,1)) [!reverse] ("<{}|{:?}>", mx(v,3), 7) [style+=ms(v,4)])),
        171 => no(term_write!(x, [black] "\u{e9}\u{4e16}" [#red] "" [#white])),
        172 => no(term_writeln!(x, [black] "\u{e9}\u{4e16}" [#red] "" [#white])),
        173 => no(term_write!(x, [reset] "\n" [underline] ("{}", mx(v,3)) [italic])),
        174 => no(term_writeln!(x, [reset] "\n" [underline] ("{}", mx(v,3)) [italic])),
        175 => no(term_write!(x, [#black] "ab" [!underline] [!bold] ("<{}|{:?}>", mx(v,4), 7))),
        176 => no(term_writeln!(x, [#black] "ab" [!underline] [!bold] ("<{}|{:?}>", mx(v,4), 7))),
        177 => no(term_write!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [green] "\u{e9}\u{4e16}" [style+=ms(v,4)])),
        178 => no(term_writeln!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [green] "\u{e9}\u{4e16}" [style+=ms(v,4)])),
        179 => no(term_write!(x, [reverse] ("<{}|{:?}>", mx(v,1), 7) [#black] (: mx(v,3)) [blue] [#green] [#white] ("no args"))),
        180 => no(term_writeln!(x, [reverse] ("<{}|{:?}>", mx(v,1), 7) [#black] (: mx(v,3)) [blue] [#green] [#white] ("no args"))),
        181 => no(term_write!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [blue] (? mx(v,3)) [!fg] ("<{}|{:?}>", mx(v,5), 7) [#black] [reverse])),
        182 => no(term_writeln!(x, [#red] ("<{}|{:?}>", mx(v,1), 7) [blue] (? mx(v,3)) [!fg] ("<{}|{:?}>", mx(v,5), 7) [#black] [reverse])),
        183 => no(term_write!(x, [!bg] [#green] [style=mos(v,2)] ("{a:>3}{b}", b=mx(v,3), a=5) [#blue] ("{{}}") [fg=mcc(v,6)] "\n")),
        184 => no(term_writeln!(x, [!bg] [#green] [style=mos(v,2)] ("{a:>3}{b}", b=mx(v,3), a=5) [#blue] ("{{}}") [fg=mcc(v,6)] "\n")),
        185 => no(term_write!(x, [white] ("{{}}") [#magenta] "" [cyan] "ab" [#yellow] "\u{e9}\u{4e16}")),
        186 => no(term_writeln!(x, [white] ("{{}}") [#magenta] "" [cyan] "ab" [#yellow] "\u{e9}\u{4e16}")),
        187 => no(term_write!(x, [#red] "x\r\ty" [style=ms(v,2)] "\n" [blue] (? mx(v,5)) [italic] [theme=mt(v,7)])),
        188 => no(term_writeln!(x, [#red] "x\r\ty" [style=ms(v,2)] "\n" [blue] (? mx(v,5)) [italic] [theme=mt(v,7)])),
        189 => no(term_write!(x, [style+=ms(v,0)] "{{" [green] ("no args") "%d\\" [bg=mcc(v,5)] [theme=mt(v,6)] "\n")),
        190 => no(term_writeln!(x, [style+=ms(v,0)] "{{" [green] ("no args") "%d\\" [bg=mcc(v,5)] [theme=mt(v,6)] "\n")),
        191 => no(term_write!(x, [italic] [white] [style+=ms(v,2)] "" [#white] ("no args") [fg=mc(v,6)] (: mx(v,7)))),
        192 => no(term_writeln!(x, [italic] [white] [style+=ms(v,2)] "" [#white] ("no args") [fg=mc(v,6)] (: mx(v,7)))),
        193 => no(term_write!(x, [bold] "c" [style+=ms(v,2)] ("{}", mx(v,3)) [!reverse] ("no args") [blue] "")),
        194 => no(term_writeln!(x, [bold] "c" [style+=ms(v,2)] ("{}", mx(v,3)) [!reverse] ("no args") [blue] "")),
        195 => no(term_write!(x, [black] ("{{}}") [style-=ms(v,2)] [magenta] [fg=mcc(v,4)] ("no args") [style=mos(v,6)] ("<{}|{:?}>", mx(v,7), 7) [#red] ("<{}|{:?}>", mx(v,9), 7) [!underline] ("{{}}") [underline] (? mx(v,13)))),
        196 => no(term_writeln!(x, [black] ("{{}}") [style-=ms(v,2)] [magenta] [fg=mcc(v,4)] ("no args") [style=mos(v,6)] ("<{}|{:?}>", mx(v,7), 7) [#red] ("<{}|{:?}>", mx(v,9), 7) [!underline] ("{{}}") [underline] (? mx(v,13)))),
        197 => no(term_write!(x, [!style] ("<{}|{:?}>", mx(v,1), 7) [italic] ("{a:>3}{b}", b=mx(v,3), a=5) [yellow] ("{}", mx(v,5)) [style=mos(v,6)] ("{a:>3}{b}", b=mx(v,7), a=5) [!underline] "\n" [#green] "\n" [#magenta] [white])),
        198 => no(term_writeln!(x, [!style] ("<{}|{:?}>", mx(v,1), 7) [italic] ("{a:>3}{b}", b=mx(v,3), a=5) [yellow] ("{}", mx(v,5)) [style=mos(v,6)] ("{a:>3}{b}", b=mx(v,7), a=5) [!underline] "\n" [#green] "\n" [#magenta] [white])),
        199 => no(term_write!(x, [#red] "\u{e9}\u{4e16}" [!reverse] [red] [red] "{}" [bg=mc(v,6)] "" [red] [magenta] [reverse] "{{" [italic] "")),
        200 => no(term_writeln!(x, [#red] "\u{e9}\u{4e16}" [!reverse] [red] [red] "{}" [bg=mc(v,6)] "" [red] [magenta] [reverse] "{{" [italic] "")),
        201 => no(term_write!(x, (: mx(v,0)) [fg=mc(v,1)] (: mx(v,2)) [style+=ms(v,3)] (: mx(v,4)))),
        202 => no(term_writeln!(x, (: mx(v,0)) [fg=mc(v,1)] (: mx(v,2)) [style+=ms(v,3)] (: mx(v,4)))),
        203 => no(term_write!(x, [fg=mc(v,0)] (: mx(v,1)) [fg=mc(v,2)] (: mx(v,3)))),
        204 => no(term_writeln!(x, [fg=mc(v,0)] (: mx(v,1)) [fg=mc(v,2)] (: mx(v,3)))),
        205 => no(term_write!(x, (: mx(v,0)) (: mx(v,1)) (: mx(v,2)))),
        206 => no(term_writeln!(x, (: mx(v,0)) (: mx(v,1)) (: mx(v,2)))),
        207 => no(term_write!(x, [style+=ms(v,0)] (: mx(v,1)))),
        208 => no(term_writeln!(x, [style+=ms(v,0)] (: mx(v,1)))),
        209 => no(term_write!(x, [fg=mc(v,0)] (: mx(v,1)) (: mx(v,2)) [fg=mc(v,3)] (: mx(v,4)) [style+=ms(v,5)] (: mx(v,6)))),
        210 => no(term_writeln!(x, [fg=mc(v,0)] (: mx(v,1)) (: mx(v,2)) [fg=mc(v,3)] (: mx(v,4)) [style+=ms(v,5)] (: mx(v,6)))),
        k => panic!("macro {}", k)
    }
}
