"""Writes KNOWN_FINDINGS.txt"""
import os
FIXED = [
 ('C20', '251f6d5', 'Wigner functions returned symbolic objects, not numbers, outside the selection rules', ''),
 ('C02', 'a595695', 'the magnetic-octupole hyperfine shift lacked its factor (2I-1)', ''),
 ('C18', '86822dc', 'the components of a Lande factor were weighted by the wrong amplitudes', ''),
 ('C15', '525081e', 'a blank Lande cell of a table became a NaN Lande value instead of a computed one', ''),
 ('C03', '8ff5906', 'a wavenumber or wavelength could not be assigned to sublevels and their transitions', 'C05'),
 ('C10', '01f79a0', 'the strength of an E2 Zeeman component used one F for both levels', ''),
 ('C13', '0319d54', 'saved files with a dot elsewhere in the path lacked the extension .atom', ''),
 ('C21', '8ceb5c6', 'tensor transition strengths used 2F instead of 2F+1 for one level', ''),
 ('C21', 'c7ae7e4', 'polarised transition strengths failed for numpy arrays', ''),
 ('C21', '7a0ee48', 'the geometric factors of E2 matrix elements and strengths were inconsistent', ''),
 ('C16', 'e9a49c0', 'mixtures of terms could not be printed, nor compared with mixtures of another length', ''),
 ('C15', 'e60a657', 'Term.from_dataframe ignored the percentage column that the IO module writes', ''),
 ('C17', '1b75bc5', 'values without an orbital letter and text that is no number gave answers instead of errors', ''),
 ('C07', 'd230577', 'a (lower, upper) subtransition key could return the component with the labels swapped', ''),
 ('C07', '2318eca', 'transitions were not found by aliases, level objects or ranks, or in the other order', ''),
 ('C06', 'bf974c7', 'incomplete sublevel paths raised other errors than KeyError', ''),
 ('C08', '75e65ab', 'adding a transition again failed once its components had been asked for', ''),
 ('C08', 'bcf85ad', 'adding a level again replaced its sublevels', ''),
 ('C08', '4bb3275', 'adding a transition did not add the levels it joins', ''),
 ('C08', '8bd9f1b', 'removing a level left transitions, sublevels or aliases behind', ''),
 ('C09', '069df51', 'looking up a forbidden pair of sublevels added a transition for it', ''),
 ('C09', 'cb03eaf', 'looking up linked levels rebuilt the subtransitions and missed or invented links', 'C11, C22'),
 ('C11', 'cb26dfc', 'branching ratios mixed A coefficients given in different units', ''),
 ('C10', '521a3f6', 'components kept the A coefficient their parent had when they were first read', 'C22'),
 ('C02', 'd2c637f', 'Zeeman shifts kept the Lande value their level had when they were first read', 'C22'),
 ('C07', '944910d', 'the orientation of a component depended on when it was first asked for', 'C22'),
 ('C09', '4afdcf3', 'the components of a self-transition were listed twice', ''),
 ('C12', '65b2455', 'populate_transitions missed permitted pairs and added others', ''),
 ('C15', '69d80a5', 'generate_full_from_dataframe ignored the choice of transition types', ''),
 ('C12', '223023b', 'populating internal transitions replaced those that existed', ''),
 ('C04', 'e10ebe3', 'networks of assigned frequencies were not satisfied, or satisfied ones were moved', ''),
 ('C15', '0261d17', 'level tables with a missing or bracketed ionization limit were not read', ''),
 ('C15', 'f4ba0f8', 'the leading percentage of levels without a second component was lost', ''),
 ('C23', '6ba7966', 'hyperfine and Zeeman lines of Grotrian diagrams had the wrong widths and overlapped', ''),
 ('C24', '77eb17a', 'plot_spectrum failed for a single transition and dropped its options', ''),
 ('C24', '7138c8c', 'the labels of Zeeman spectra did not tell the components apart', ''),
 ('C08', 'ffc3541', 'adding an object again took back aliases that had been given to another', ''),
 ('C17', 'f02fb0d', "float_to_frac returned '6/2' and 'a/b' unchanged", ''),
 ('C19', 'd7e3a52', 'JK_to_LS raised an error when every argument was an int', ''),
 ('C23', '7dfcc0e', 'boxes around hyperfine and Zeeman structure ignored their padding', ''),
 ('C23', '6e4ba99', 'rendering a diagram again showed stale or duplicate lines', ''),
 ('C23', '33e001b', 'colors and widths of brackets belonged to other levels', ''),
 ('C03', '3609f81', 'zero wavenumbers and frequencies did not convert into each other', 'C02'),
 ('C24', 'dc78944', 'plot_zeeman_spectrum failed without one of its colorings', ''),
 ('C24', '25396c2', 'plot_spectrum failed without a coloring or with a function as coloring', ''),
 ('C24', '221069d', 'the axis of a spectrum named GHz whatever unit it was plotted in', ''),
 ('C24', '3f8e680', 'plot_zeeman_spectrum failed for a list of fine transitions', ''),
 ('C19', 'cf0e5b7', 'mod_lorentzian failed without a number of sidebands', ''),
 ('C02', '3fc5f5a', 'a g-factor set on a hyperfine level had no effect on its Zeeman sublevels', ''),
 ('C12', 'fb7a2d0', 'populate_transitions missed levels of J above 20', ''),
 ('C24', 'e52bd4d', 'colors of lines far apart in the shading property were white or no colors', ''),
 ('C25', 'cad7609', 'polarisations shorter than a unit vector were accepted', ''),
 ('C06', '03df142', 'mJ keys named sublevels of atoms with a nuclear spin', ''),
 ('C19', 'a6517e6', 'modulated lines of integer frequencies were rounded down', ''),
 ('C19', '5570985', 'JK_to_LS amplitudes of different L had wrong signs relative to each other', ''),
]
FOUND = [
 ('C21', 'the average E2 strength weights q=0, 1 and 2 by 14/29, 9/58 and 3/29 instead of 1/5 each'),
 ('C22', 'the orientation of a component within one manifold depends on when it was first looked at'),
]
if __name__ == '__main__':
    out = ["# finding: property=<id> key=<text in the message>  -- defects that are recorded, printed as KNOWN-FINDING, not reported as violations",
           "# fixed: property=<id> <commit> <what failed>        -- repaired defects; these suppress nothing"]
    out += [f'finding: property={p} key={k}' for p, k in FOUND]
    out += [f'fixed: property={p} {c} {w}' + (f' (also {o})' if o else '') for p, c, w, o in FIXED]
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.txt')
    open(path, 'w').write('\n'.join(out) + '\n')
