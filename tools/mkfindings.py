"""Rewrites known_findings.jsonl: every fix commit of /repo with the property whose check found it. Run by hand when a fix is added; no check writes this file."""
import json
import subprocess

PROP = '''iteritems=C20 only the samples every=C20 import os=C22 default to the MTs=C22 requested temperature=C16 extra blank line=C19 comment lines=C19 undo the pivoting=C02
zero on the correlation diagonal=C05 do not sample zero means=C05 groups with a zero mean=C06 keep zero cross-sections=C20 num_oversamples=C22 three digit exponents=C19 sum rules carry=C17
photon production for MT=3=C15 HDF5 datasets with=C26 linear-log interpolated=C25 element of an INTG=C24 flat log-linear=C25 latest PENDF=C12 boxer2mat checks=C10 uniform samples=C03
lowest group boundary=C08 correlation matrices without=C07 draw a single sample=C03 reactions without a name=C23 open ENDF file=C24 user flux=C12 make_njoy_run=C13 selected by name=C14
ascii_to_binary=C14 last number of an ACE=C14 nu whose values=C16 integer arguments=C25 over a step=C25 exported again=C26 discrete lines can=C26
unresolved resonances with=C27 copy of a resonance=C27 resonance cross-sections at integer=C27 competitive widths=C27 resonances with a background=C27 one channel spin=C27 without resonance data=C28 six or not=C28 polynomial delayed yield=C28 Legendre coefficients of two-body=C28 discrete photons of MF=C28
of data without them are None=C29 doubles the correlations=C29 keep their uncertainty next=C29 one, two or four=C29 subset of resonance covariances=C29 compatible format with several=C29 neutron and capture width=C29 given in several blocks=C29 MT 180 is=C26 calcium in CaH2=C35 any of them has another=C18 interpolation do not give nan=C25 interpolation and zeros is a number=C25
parameters of no uncertainty=C29
Bragg edges below=C31 ThermalScattering.from_ace=C31 upper end of the library=C32 cut to integers=C32 decay of unknown kind=C30 covariances of decay spectra=C30 uncertainty of the scattering=C29 some temperatures could not be exported=C31 nuclide name in front=C33 Am-242=C35 single group could not be plotted=C36 range of the correlation plot=C36 common end of two resonance=C27 not in order of energy=C37 without resonances in a resolved=C37 outside of it by rounding=C37 upper end of a resonance range=C27 batch job of=C38 batch job failed=C38 could not be compared=C39 checked list had the elements=C40 and the like from ENDF files 4=C28 all in the centre-of-mass frame=C28 had a frame of its own=C28 N-body phase space of an ENDF=C28'''
EXTRA = {'read stored Kalbach-Mann': 'C26', 'columns of compact correlation': 'C24', 'probability tables can be assigned': 'C26', 'parameters that were sorted': 'C27', 'tabulated angular distributions of file 6': 'C28', 'partial fission from file 6': 'C28',
         'no further neutron for partial fission': 'C28', 'covariances of several isotopes': 'C29'}


KNOWN = [{'status': 'known', 'property': 'C28', 'id': 'C28-kalbach-slope',
          'what': 'KalbachMann.from_endf: slopes of a spectrum of file 6, LAW=1, LANG=2 with NA=1 (the file gives none, ENDF prescribes the Kalbach systematics) are all zero'}]


def pairs():
    import re
    return [(m.group(1).strip(), m.group(2)) for m in re.finditer(r'(.+?)=(C\d\d)(?:\s+|$)', PROP)] + list(EXTRA.items())


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'ba5aeed..HEAD'], capture_output=True, text=True, check=True).stdout.split('\n')
    out = []
    for l in filter(None, log):
        h, s = l.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        hits = [p for k, p in pairs() if k in s]
        assert len(hits) == 1, (s, hits)
        what = s[5:]
        out.append({'status': 'fixed', 'property': hits[0], 'commit': h, 'what': what, 'line': f'fixed: property={hits[0]} {h} {what}'})
    out += KNOWN
    with open('/verif/known_findings.jsonl', 'w') as f:
        for o in out:
            f.write(json.dumps(o) + '\n')
    print(len(out), 'entries')


main()
