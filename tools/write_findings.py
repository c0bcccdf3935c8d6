"""Writes /verif/known_findings.json (kept as a script so that the text is reviewable)."""
import json, os

FIXED = '''
P10 cfddbba the number of time origins given as a fractional string (the command line does that) crashed
P10 80f5cf1 the interval between origins was no multiple of the block size of a block-periodic trajectory
P08 b85cb69 the velocity autocorrelation with the default time grid crashed
P08 609c1b1 the velocity autocorrelation ignored the number of time origins
P08 1c37a83 the self overlap with the default time grid crashed when given a path
P04 fac013d the list of wave-numbers provided by the caller was modified
P03 312e679 the f90 structure factor did not use the wave-vectors it reports
P03 b66f546 the f90 structure factor of a pair of species used one species only
P03 5f8b4bb the f90 structure factor in two dimensions or with weights gave garbage
P04 e195aae wave-vectors with positive components set by the user were replaced by others
P15 d79e9d5 Fourier-space calculations reset the global random number generator
P15 108c48a a second computation of a correlation appended to the arrays of the first
P09 0c5abd6 the average and second moment of chi_4 grew when it was computed again
P15 8019aae g(r) lost one bin every time it was computed again
P16 a51dcfc the bond-angle distribution lost one bin when computed again
P16 686b5c8 particles with many neighbours overran the buffer of the bond-angle distribution
P14 cdc6fd8 do() failed with in-memory trajectories
P12 a42a7f7 filters exceeding the number of bodies were accepted silently
P18 317d68b the linear fit of exactly linear data failed
P25 6d8ec2b the generalised correlation function missed the last pair
P14 a228e59 correlation functions with a single entry could not be read back
P08 d8aa2a9 the non-Gaussian parameter in two dimensions used the prefactor of three
P17 74c1d9b fluctuations of an integer field were truncated to integers
P15 fa71048 filters added all builtins to the particles of the trajectory
P15 935032d centring modified unfolded positions of a cached trajectory
P20 f7848e1 fix_cm was ignored by cross correlations
P10 1e26323 norigins=1 was not a single origin in block-periodic trajectories
P10 a8a2c35 the longest time differences were left out of the time grid
P02 8d719eb linked cells used an alias removed from numpy
P02 6c4674e linked cells failed with particles on the cell boundary
P02 d85a75f linked cells missed pairs when the cell changes size
P02 d5f5d21 linked cells failed for a group without particles
P02 8ba9659 the last bin of g(r) with a maximum distance was incomplete
P24 2f5d3e3 the g(r) kernels wrote beyond the end of the histogram
P24 0cb7c52 a buffer of the g(r) kernel with neighbours was too short
P02 d7a2899 full neighbour lists missed pairs in the same linked cell
P09 8bd3d1a the optimised chi_4 imported a module that does not exist
P09 1aa3106 chi_4 skipped the last time origins
P15 3e873e6 compute() did not return the results of Fourier-space correlations
P21 829abb0 the spectral density evaluated the form factors at the integer indices of the wave-vectors
P21 e0071cf the spectral density took the radii of the wrong frame when some frames are left out
P19 2e66873 the API of the spectral density ignored trajectory_radius and all input files but the first
P19 bbfb6c0 the API of the MSD ignored fix_cm for partial functions
P19 b4a0c83 the API of chi_4 failed with the fast backend and with one species
P19 8d3d849 the API of S(k) with a weight trajectory failed with several input files
P25 79a972d the script acf.py could not be imported
P22 a832f4f the four-point structure factor could not be computed
P03 cef365b cells that fluctuate but end as they started were taken as fixed
P03 d54ee81 a second computation with a variable cell used stale wave-vectors
P06 88193e4 Fourier-space correlations of a group that is empty in some frames failed
P02 947e009 linked cells kept the map of the previous kind of search
P16 f0c4e38 the default cutoffs of the bond-angle distribution failed when g(r) has no minimum
P19 d09e3f3 the API centred cached frames once per correlation function
P15 8166805 cached trajectories were folded twice when unfolding
P21 3b82c17 the spectral density of a shell including the null vector was not a number
P14 5964d7e the output of a trajectory in the current directory could not be written
P01 48cbe18 g(r) in one or five dimensions was normalised with a wrong shell volume
P27 0935605 the files of the average and second moment of chi_4 of a partial or filtered selection said whole system
P28 7404d66 correlations of the user that need folded and unwrapped positions (the default) failed
P28 eaf64d5 correlations of two bodies without filters had no unwrapped positions
P01 d63ff97 the legacy g(r) averaged pairs and numbers of particles over different frames when a group is missing from some
P02 cd351de linked cells counted pairs twice with less than three subcells along a side, as happens in g(r) when the cell shrinks
P01 dbd7b84 g(r) was normalised with the volume of the last frame in cells that fluctuate
P01 843de30 g(r) failed with an integer bin width
P16 843de30 an integer bin width of the bond-angle distribution was taken as a number of points
P19 6f39e54 the filter option was ignored by the commands for time correlations
P03 5467a6f S(k) between two groups was wrong in dimensions other than two and three (and took the weights of the first group for both)
P06 5e0896f F(k,t) was wrong in dimensions other than two and three
P28 0ef0f33 the unwrapped positions stored in the trajectory were ignored by correlations between two groups
P28 1be4ba4 functions of two variables whose second grid is an array or a tuple were written wrongly or not at all
P12 c09e1fd conditions with commas within brackets failed for two-body correlations
P12 359cf70 two conditions on a one-body correlation selected everything instead of being refused
P27 eaf89b3 the bond-angle distribution with default cutoffs wrote g(r) files, overwriting those of the user
P04 ecd0b3f a grid of wave-numbers set after construction, as documented, made every Fourier-space calculation fail
P03 385177a wave-vectors given by the user were replaced, or the calculation failed, when the cell changes along the trajectory
P03 b4d52ac with a changing cell, the wave-vectors reported were those of the last frame and the grid changed when computing again
P01 f7625a1 a grid of distances set after the construction of g(r) was ignored (introduced by an earlier repair)
'''

KNOWN = [
    dict(property='P18', check='helpers',
         case=dict(what='logx', x1=0.0, x2=100.0, n=10, delta=None, strict=True),
         what='logx_grid(0, x2, n) ends at x2-1 instead of the documented end point x2 '
              '(the stored references of a stable test depend on it, so it is not repaired)'),
]

fixed = []
for line in FIXED.strip().splitlines():
    pid, commit, what = line.split(' ', 2)
    fixed.append('fixed: property=%s %s %s' % (pid, commit, what))
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
with open(path, 'w') as fh:
    json.dump(dict(fixed=fixed, known=KNOWN), fh, indent=1)
    fh.write('\n')
print(len(fixed), len(KNOWN))
