E = "src/events/event_source.rs"
B = "src/events/tick_beam.rs"
A = "src/ask.rs"
D = "src/events/timed_event.rs"
T1 = ["T01", "T02"]
V = {
 "ev_extract_flush": (T1, [(E, '''                    for key in seq.keys {
                        let mut timed_event = TimedEvent::new(Event::Key(key));
                        timed_event.key_combination = combiner.transform(key);
                        if options.discard_raw_key_events && timed_event.key_combination.is_none() {
                            continue;
                        }
                        if send_and_wait(timed_event) {
                            return;
                        }
                    }
''', '''                    for key in seq.keys {
                        let timed_event = timed_key(key, &mut combiner);
                        let discarded = timed_event.key_combination.is_none() && options.discard_raw_key_events;
                        if !discarded && send_and_wait(timed_event) {
                            return;
                        }
                    }
'''), (E, "fn is_seq_end(", '''fn timed_key(key: KeyEvent, combiner: &mut Combiner) -> TimedEvent {
    let mut timed_event = TimedEvent::new(Event::Key(key));
    timed_event.key_combination = combiner.transform(key);
    timed_event
}
fn is_seq_end(''')]),
 "ev_letelse": (T1, [(E, '''                let ct_event = match crossterm::event::read() {
                    Ok(e) => e,
                    _ => {
                        continue;
                    }
                };
''', '''                let Ok(ct_event) = crossterm::event::read() else {
                    continue;
                };
''')]),
 "ev_double": (T1, [(E, '''                        if let Some(TimedClick { time, x, y }) = last_up {
                            if column == x
                                && row == y
                                && timed_event.time - time < DOUBLE_CLICK_MAX_DURATION
                            {
                                timed_event.double_click = true;
                            }
                        }
''', '''                        timed_event.double_click = last_up
                            .as_ref()
                            .map_or(false, |last| last.is_followed_by(column, row, timed_event.time));
'''), (E, "pub struct EventSourceOptions {", '''impl TimedClick {
    fn is_followed_by(&self, x: u16, y: u16, time: Instant) -> bool {
        self.x == x && self.y == y && time - self.time < DOUBLE_CLICK_MAX_DURATION
    }
}

pub struct EventSourceOptions {''')]),
 "ev_match_recv": (T1, [(E, '''                internal_event_count.fetch_add(1, Ordering::SeqCst);
                if tx_events.send(event).is_err() {
                    true // broken channel
                } else {
                    match rx_quit.recv() {
                        Ok(false) => false,
                        _ => true,
                    }
                }
''', '''                internal_event_count.fetch_add(1, Ordering::SeqCst);
                match tx_events.send(event) {
                    Ok(()) => rx_quit.recv().unwrap_or(true),
                    Err(_) => true,
                }
''')]),
 "ev_mouse_match": (T1, [(E, '''                if let Event::Mouse(mouse_event) = ct_event {
                    if options.discard_mouse_move && mouse_event.kind == MouseEventKind::Moved {
                        continue;
                    }
                    if options.discard_mouse_drag
                        && matches!(mouse_event.kind, MouseEventKind::Drag(_))
                    {
                        continue;
                    }
                }
''', '''                if let Event::Mouse(mouse_event) = &ct_event {
                    let discarded = match mouse_event.kind {
                        MouseEventKind::Moved => options.discard_mouse_move,
                        MouseEventKind::Drag(_) => options.discard_mouse_drag,
                        _ => false,
                    };
                    if discarded {
                        continue;
                    }
                }
''')]),
 "ev_seq_iflet": (T1, [(E, '''                            let mut seq = current_escape_sequence.take().unwrap();
                            seq.keys.push(key);
                            if tx_seqs.try_send(seq).is_err() {
                                // there's probably just nobody listening on
                                // this zero size bounded channel
                            }
                            continue;
''', '''                            if let Some(mut seq) = current_escape_sequence.take() {
                                seq.keys.push(key);
                                // there's probably just nobody listening on
                                // this zero size bounded channel when it fails
                                let _ = tx_seqs.try_send(seq);
                            }
                            continue;
''')]),
 "ev_mods": (T1, [(E, '''                        } else if !key
                            .modifiers
                            .intersects(KeyModifiers::ALT | KeyModifiers::CONTROL)
                        {
''', '''                        } else if !key.modifiers.contains(KeyModifiers::ALT)
                            && !key.modifiers.contains(KeyModifiers::CONTROL)
                        {
''')]),
 "ev_index_flush": (T1, [(E, '''                    for key in seq.keys {
                        let mut''', '''                    for i in 0..seq.keys.len() {
                        let key = seq.keys[i];
                        let mut''')]),
 "ev_setup_fn": (T1, [(E, '''            Err(e) => {
''', '''            Err(e) => {
''')] if False else [(E, '''        let (tx_events, rx_events) = unbounded();
        let (tx_seqs, rx_seqs) = bounded(ESCAPE_SEQUENCE_CHANNEL_SIZE);
        let (tx_quit, rx_quit) = unbounded();
        let event_count = Arc::new(AtomicUsize::new(0));
        let internal_event_count = Arc::clone(&event_count);
''', '''        let event_count = Arc::new(AtomicUsize::new(0));
        let internal_event_count = event_count.clone();
        let (tx_quit, rx_quit) = unbounded();
        let (tx_seqs, rx_seqs) = bounded(ESCAPE_SEQUENCE_CHANNEL_SIZE);
        let (tx_events, rx_events) = unbounded();
''')]),
 "tick_match": (["T03"], [(B, '''                if let Some(remaining_count) = remaining_count.as_mut() {
                    if *remaining_count == 0 {
                        break;
                    }
                    *remaining_count -= 1;
                }
                if interrupt_receiver.recv_timeout(mission.period).is_ok() {
                    // we received an interrupt
                    break;
                }
                let _ = tick_sender.send(mission.payload);
''', '''                match remaining_count {
                    Some(0) => break,
                    Some(n) => remaining_count = Some(n - 1),
                    None => {}
                }
                match interrupt_receiver.recv_timeout(mission.period) {
                    Ok(()) => return, // we received an interrupt
                    Err(_) => {
                        let _ = tick_sender.send(mission.payload);
                    }
                }
''')]),
 "tick_while": (["T03"], [(B, '''            let mut remaining_count = mission.remaining_count;
            loop {
                if let Some(remaining_count) = remaining_count.as_mut() {
                    if *remaining_count == 0 {
                        break;
                    }
                    *remaining_count -= 1;
                }
''', '''            let mut done = 0;
            while mission.remaining_count.map_or(true, |max| done < max) {
                done += 1;
''')]),
 "tick_stop_loop": (["T03"], [(B, '''        let idx = self.beams.iter().position(|beam| beam.id == id);
        if let Some(idx) = idx {
            self.beams.swap_remove(idx).stop();
        }
''', '''        for i in 0..self.beams.len() {
            if self.beams[i].id == id {
                self.beams.remove(i).stop();
                return;
            }
        }
''')]),
 "tick_stop_all_take": (["T03"], [(B, '''        for beam in self.beams.drain(..) {
            beam.stop();
        }
''', '''        for beam in std::mem::take(&mut self.beams) {
            beam.stop();
        }
''')]),
 "tick_stop_all_pop": (["T03"], [(B, '''        for beam in self.beams.drain(..) {
            beam.stop();
        }
''', '''        while let Some(beam) = self.beams.pop() {
            beam.stop();
        }
''')]),
 "tick_once_several": (["T03"], [(B, '''        self.start_beam(TickBeam {
            remaining_count: Some(1),
            period: after,
            payload,
        })
''', '''        self.tick_several_times(payload, after, 1)
''')]),
 "ask_any": (["T04"], [(A, '''            for a in &self.answers {
                if a.key == input {
                    return Ok(input);
                }
            }
''', '''            if self.answers.iter().any(|a| a.key == input) {
                return Ok(input);
            }
''')]),
 "ask_default": (["T04"], [(A, '''            if input.is_empty() {
                if let Some(da) = &self.default_answer {
                    return Ok(da.clone());
                }
            }
''', '''            match &self.default_answer {
                Some(da) if input.is_empty() => return Ok(da.to_string()),
                _ => {}
            }
''')]),
 "ask_trim": (["T04"], [(A, '''            input.truncate(input.trim_end().len());
            if input''', '''            let input = input.trim_end().to_string();
            if input''')]),
 "ask_helper": (["T04"], [(A, '''            for a in &self.answers {
                if a.key == input {
                    return Ok(input);
                }
            }
''', '''            if self.has_answer(&input) {
                return Ok(input);
            }
'''), (A, '''    /// has a default been defined which''', '''    fn has_answer(&self, key: &str) -> bool {
        for answer in self.answers.iter() {
            if answer.key == key {
                return true;
            }
        }
        false
    }

    /// has a default been defined which''')]),
 "ask_exotic_any": (["T04"], [(A, '''        if let Some(da) = self.default_answer.as_ref() {
            for answer in &self.answers {
                if &answer.key == da {
                    return false;
                }
            }
            true
        } else {
            false
        }
''', '''        match &self.default_answer {
            Some(da) => !self.answers.iter().any(|answer| answer.key == *da),
            None => false,
        }
''')]),
 "ask_exotic_all": (["T04"], [(A, '''        if let Some(da) = self.default_answer.as_ref() {
            for answer in &self.answers {
                if &answer.key == da {
                    return false;
                }
            }
            true
        } else {
            false
        }
''', '''        self.default_answer
            .as_ref()
            .map_or(false, |da| self.answers.iter().all(|answer| &answer.key != da))
''')]),
 "te_is_key": (["T05"], [(D, '''        if self.key_combination == Some(key) {
            return true;
        }
        if let Event::Key(k) = &self.event {
            let self_key: KeyCombination = (*k).into();
            if self_key == key {
                return true;
            }
        }
        false
''', '''        if matches!(self.key_combination, Some(kc) if kc == key) {
            return true;
        }
        match self.event {
            Event::Key(k) => KeyCombination::from(k) == key,
            _ => false,
        }
''')]),
 "te_as_click": (["T05"], [(D, '''        match self.event {
            Event::Mouse(MouseEvent {
                kind: MouseEventKind::Up(MouseButton::Left),
                column,
                row,
                modifiers: KeyModifiers::NONE,
            }) if !self.double_click => Some((column, row)),
            _ => None,
        }
''', '''        if self.double_click {
            return None;
        }
        let Event::Mouse(mouse_event) = self.event else {
            return None;
        };
        if mouse_event.kind == MouseEventKind::Up(MouseButton::Left) && mouse_event.modifiers.is_empty() {
            Some((mouse_event.column, mouse_event.row))
        } else {
            None
        }
''')]),
 "es_display": (["T05"], [("src/events/escape_sequence.rs", '''            if let KeyEvent {
                code: KeyCode::Char(c),
                modifiers: KeyModifiers::NONE,
                ..
            } = key
            {
                write!(f, "{}", c)?;
            }
''', '''            if !key.modifiers.is_empty() {
                continue;
            }
            if let KeyCode::Char(c) = key.code {
                write!(f, "{c}")?;
            }
''')]),
 "es_display2": (["T05"], [("src/events/escape_sequence.rs", '''                write!(f, "{}", c)?;
''', '''                fmt::Write::write_char(f, *c)?;
''')]),
}
