"""property id -> rule"""
RULES = {}


def rule(pid, title, technique, fn, **kw):
    RULES[pid] = dict(title=title, technique=technique, fn=fn, **kw)


import effects
CG = "who-may-call analysis over the resolved MIR call graph"
rule("E01", "Output only goes to the destination given", CG, effects.e01)
rule("E02", "Explicit-width rendering depends on its arguments only", CG, effects.e02)
import errors
rule("E03", "Direct display functions flush before succeeding", "path-sensitive must-flush (typestate) analysis over MIR",
     errors.e03)
rule("E04", "Write errors are never swallowed", "path-sensitive must-propagate dataflow over MIR", errors.e04)
import skin
SE = "symbolic effect analysis (abstract interpretation of MIR, exact post-state of each field)"
rule("S01", "Skin-wide color setters reach exactly the documented elements", SE, skin.s01)
rule("S02", "A styled char is always written with its own char and style", SE, skin.s02)
rule("S03", "Style setters and composition change exactly what they name", SE, skin.s03)
rule("S04", "Each compound gets the documented composition of styles", SE, skin.s04)
rule("S05", "Blending fades every text style, color by color", SE, skin.s05)
rule("S06", "Bundled border sets join, and limit_to_ascii leaves only ASCII", "constant table analysis and symbolic effect analysis of MIR", skin.s06)
rule("S07", "The no-style skin styles no text", SE, skin.s07)

import render
RE = "abstract interpretation of MIR with the writer replaced by a symbolic output buffer"
rule("R01", "A composite is written as its completions, marks and compounds, exactly", RE, render.r01)
rule("R02", "Table rows, table rules and horizontal rules are written exactly", RE, render.r02)
rule("R03", "A text is written line by line, each line once", RE, render.r03)
rule("R04", "Completions fill exactly the missing width, margins never eat the text", SE, render.r04)
rule("R05", "Computed widths agree with what is written", SE, render.r05)
rule("R06", "Repeating and padding functions write exactly what they're asked", RE, render.r06)

import crop
import wrapping
IN = "abstract interpretation of MIR with inductive loop invariants over specification variables"
rule("C01", "Fitting a string keeps its longest prefix, of the width announced", IN, crop.c01)
rule("C02", "The crop writer never writes beyond its width and accounts for all it writes", SE, crop.c02)
rule("C03", "A filling writes exactly the number of chars asked, in its style", SE, crop.c03)
rule("C04", "Tokens partition the text in order, words and blanks apart", IN, crop.c04)
rule("W01", "Wrapped lines never exceed the width", IN, wrapping.w01)
rule("W02", "Wrapping loses nothing but blanks at line ends, and joins no words", IN, wrapping.w02)
rule("W03", "Only the lines which don't fit are wrapped, in place", IN, wrapping.w03)

import views
rule("V01", "Scrolling is exact, stays in bounds and tells whether it moved", SE, views.v01)
rule("V02", "The scrollbar's thumb shows where the view is", SE, views.v02)
rule("V03", "Rectangles and text views fill their area, and nothing else", IN, views.v03)
rule("V04", "An input field fills its area, hides passwords, tells where its cursor is", IN, views.v04)

import lists
rule("L01", "A list counts the rows its filter displays, and only its filter changes them", IN, lists.l01)
rule("L02", "The selection of a list moves among the displayed rows and stays visible", IN, lists.l02)
import listdraw
rule("L03", "A list is drawn row after row, the displayed ones only, with its scrollbar", IN, listdraw.l03)

import inputs
rule("I01", "The cursor and the selection of an input field are always in its text", IN, inputs.i01)
rule("I02", "Cursor moves go where they say and leave the text as it is", SE, inputs.i02)
rule("I03", "Edits change the text exactly where the cursor is", IN, inputs.i03)
rule("I04", "Deleting a selection removes exactly what is selected", SE, inputs.i04)
import fields
rule("I05", "The cursor of a focused input field stays in view", IN, fields.i05)
rule("I06", "An input field uses the events meant for it, as the keys say, and no other one", SE, fields.i06)

import events
import ticks
import asking
rule("T01", "Each event read is sent once, in order, alone, counted, as the options say", SE, events.t01)
rule("T02", "An event source owns raw mode, and its channels are those of its thread", SE, events.t02)
rule("T03", "A beam ticks as many times as asked unless stopped, and only it is stopped", IN, ticks.t03)
rule("T04", "A question is answered with the key of an answer or the default", IN, asking.t04)
rule("T05", "Simple clicks, keys and escape sequences are told apart as documented", IN, events.t05)

import words
import skinfile
rule("S08", "A skin written as data is read back as itself, key by key", IN, skinfile.s08)
rule("S09", "The word written for a color, attribute, alignment or char is read as it", IN, words.s09)
rule("S10", "A style written as words is read back as the same style", IN, words.s10)

import fitting
rule("F01", "A fitted composite is parts of its text, with ellipses for what's removed", IN, fitting.f01)

import tables
rule("B01", "Every row and rule of a table gets all its columns, at their widths", IN, tables.b01)
rule("B02", "The columns of a table fit the width, and are as wide as they need", IN, tables.b02)

import blocks
rule("K01", "Code blocks are the runs of code lines, each as wide as its widest one", IN, blocks.k01)
rule("K02", "A text is its source's lines, tables and code laid out, then wrapped", IN, blocks.k02)
rule("K03", "Showing markdown shows it laid out for the destination's width", IN, blocks.k03)

import shortcuts
rule("K04", "The functions and macros of the crate do what their arguments say", IN, shortcuts.k04)

import columns
rule("L04", "The columns of a list fit its area, titles and cells being in their columns", IN, columns.l04)

import geometry
rule("V05", "Areas, positions and ranges are the places they tell", SE, geometry.v05)

import readback
rule("I07", "What's put in an input field is what's read from it", SE, readback.i07)
rule("I08", "The columns of a line are the widths of its chars", SE, readback.i08)
