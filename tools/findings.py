#!/usr/bin/env python3
"""Writes known-findings.jsonl: the genuine defects that were found, one line each (all of them repaired)."""
import json
import os

FIXED = [
    ('C02', 'd996db7', 'the first burst after a gap was calibrated twice'),
    ('C01', '55f5cde', 'surfaces and bursts of a cancelled or failed run leaked into the next run of the processor'),
    ('C03', '1b0513f', 'an invalid record, or one outside of the region of interest, ended the processing'),
    ('C02', 'e9a1151', 'a short segment at the end of the input, after a gap, was refused'),
    ('C02', '1698cb5', 'the trend of the beam angles before a gap was used for the first burst after it'),
    ('C03', '63535c6', 'the last record inside the region of interest was dropped'),
    ('C09', 'f615b2c', 'antenna weights were interpolated by index instead of by angle'),
    ('C09', '3f53dc7', 'samples masked in every beam became NaN in the waveform'),
    ('C07', '94ee725', 'the Hamming and the Hanning azimuth window were swapped'),
    ('C10', 'a42f01a', 'the altitude of points at the south pole was minus the diameter of the Earth'),
    ('C10', 'a56151d', 'the angle between opposite vectors was NaN or an error'),
    ('C05', 'd6fc568', 'input and output files stayed open when the processing failed'),
    ('C06', '1c339ee', 'L1A files without product_name attribute failed at the end of the run'),
    ('C12', '8eabcdf', 'a record exactly at midnight had second 86400 of the day before'),
    ('C06', '4ffeb60', 'look angles overflowed the packing of the L1B variable'),
    ('C12', 'c309c5c', 'UTC of the first surface of a segment was that of an unset or an earlier burst'),
    ('C11', '743cd8b', 'a focusing target behind the first surfaces moved a surface'),
    ('C06', '79795be', 'longitudes of surfaces of one product mixed 0..360 and -180..180'),
    ('C09', '6117aae', 'a stack without any power stopped the processing'),
    ('C09', '4e8a49a', 'the width of a stack could be negative'),
    ('C09', '7f1f5bc', 'skewness and kurtosis of a flat stack were NaN'),
    ('C09', '41e866d', 'antenna weights assumed an evenly spaced table'),
    ('C05', '970f66c', 'processing problems were raised as a type that the command line does not report'),
    ('C19', 'e9daad6', 'names such as "..", "" or "a/b" led to directories outside of the workspaces'),
    ('C18', 'd350339', 'renaming a workspace or configuration onto an existing one moved it inside'),
    ('C18', 'aa34632', 'the directory of the current workspace ignored the base directory of the manager'),
    ('C18', 'f3649a0', 'plain files were listed as workspaces and the current one was not marked'),
    ('C20', '97a7738', 'a crash while a configuration or the selection was written left an empty or torn file'),
    ('C20', 'f3c460d', 'a failed copy left an incomplete workspace or configuration behind'),
    ('C20', '0ba788f', 'a failed copy left an incomplete input file behind'),
    ('C18', '5894232', 'a file matching several patterns was listed (and processed) several times'),
    ('C19', '642c9c1', 'inputs with a path were removed outside of the workspace'),
    ('C21', '5d2c9aa', 'output compare compared the first product with itself'),
    ('C24', '0318021', 'notebooks of a product with an apostrophe in its path were not valid Python'),
    ('C23', '17eab80', 'monitors failed on tasks without an amount of work'),
    ('C22', 'a61caba', 'saving one configuration file through the web service emptied the others'),
    ('C16', 'c472f15', 'the shipped CryoSat configuration could not be loaded (version)'),
    ('C13', 'e4fa497', 'records beyond the end of the file, or with a negative index, gave data of other records'),
    ('C12', 'a4cf047', 'surfaces inside a leap second were assigned to the next day'),
    ('C06', '90809e4', 'pointing angles of the L1BS product were in radians though labelled degrees'),
    ('C06', '7a6663c', 'the surface type of the L1BS product was the type of the packet, i.e. always 0'),
    ('C14', 'c8606de', 'beam angles beyond the end of a stack were numbers instead of the fill value'),
    ('C19', 'dfdf35a', 'operations on inputs, outputs and configuration files accepted names with a path'),
    ('C22', '1a0c14b', 'global attributes with numbers could not be sent as JSON'),
    ('C24', 'a0471bf', 'a notebook that could not be written was not reported as an error of the workspace'),
    ('C24', 'd374f89', 'notebooks of workspaces with braces in their name could not be opened'),
    ('C25', 'd1b3d40', 'functions of a user configuration did not see its imports and variables'),
    ('C26', 'fe80bda', 'images of a variable showed the waveform'),
    ('C26', '0145a02', 'images of a variable used the upper limit as lower one, or the lower as upper one'),
    ('C26', 'e3d7de6', 'a limit of zero was ignored in plots'),
    ('C26', 'd8157e7', 'im_line drew nothing if variable and both indices were given'),
    ('C13', 'a8fea47', 'the centre of gravity correction took the pitch, in degrees, for radians'),
    ('C03', 'a4f6fa2', 'a region of interest without records failed with a ValueError of numpy'),
    ('C05', '5a82727', 'an input file that could not be used was left open'),
    ('C05', 'e147456', 'the input file was left open if the first message of the run could not be printed'),
    ('C07', '12aff2c', 'a Hamming or Hanning azimuth window of a single pulse was NaN, and with it all waveforms'),
    ('C04', 'f1aba25', 'the doppler angle of a climbing satellite had the wrong sign: the looks kept were not those closest to nadir, and look angles were off by twice the angle'),
    ('C27', '79438b6', 'the platform reference of the input was missing in the L1B product'),
    ('C28', 'f92885f', 'approximate azimuth method: the beams were taken from the wrong place of the transform where a burst sees few surfaces; short segments lost all power, the ends of segments one beam'),
]


def main():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.jsonl')
    with open(path, 'w') as fp:
        for p, c, what in FIXED:
            fp.write(json.dumps({'property': p, 'status': 'fixed', 'commit': c, 'what': what,
                                 'line': 'fixed: property=%s %s %s' % (p, c, what)}) + '\n')


if __name__ == '__main__':
    main()
