"""What each check runs: design models, generators, drivers, clauses that must be exercised."""
CHECKS = {
    "C01": dict(
        mc=[("MC_Band", "MC_Band.cfg", "ok")],
        gen=[("MC_Band", "GEN_C01.cfg", 120, 600, 9, "c01")],
        drivers=[dict(script="drv_c01.py", args=["plain"]),
                 dict(script="drv_c01.py", args=["jit"], env={"NUMBA_DISABLE_JIT": "0"})],
        clauses=["OneValuePerPoint", "EnergyIsDispersion", "VelocityIsGradient", "ReadBack", "ReadBackAll"],
    ),
    "C02": dict(
        mc=[("MC_Band", "MC_Band.cfg", "ok")],
        drivers=[dict(script="drv_c02.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["OnePerPoint", "OddMesh", "InZone", "OnContour", "OnContourAlongEdges", "VelocityOfPoint",
                 "DosOfPoint", "PlanesAddUp", "PlanesEven"],
    ),
    "C03": dict(
        mc=[("MC_Band", "MC_Band.cfg", "ok")],
        drivers=[dict(script="drv_c03.py", args=[str(i), "4"]) for i in range(4)],
        clauses=["NonNegative", "LengthTimesSpacing", "EveryPlaneStates", "EveryPlaneQuadrature", "SurfaceQuadrature"],
    ),
    "C04": dict(
        mc=[("MC_Search", "MC_Search.cfg", "ok")],
        drivers=[dict(script="drv_c04.py")],
        clauses=["FillingIsCount", "DopingIsOneMinusFilling", "ReturnedValue", "PlaneFillingIsCount", "LevelIsOccupied", "TotalDoping",
                 "EachBandFilled", "SharedChemicalPotential", "DopingCrossesTarget", "SearchReportsFilling"],
    ),
    "C05": dict(
        mc=[("MC_Band", "MC_Band.cfg", "ok")] +
           [("MC_Band", "MC_Band_%s.cfg" % x, "violated") for x in ("MuSearchErases", "EraseCoversMass", "SwitchDropsPlanes")],
        gen=[("MC_Band", "GEN_C05.cfg", 150, 900, 14, "c05")],
        drivers=[dict(script="drv_c05.py", args=[str(i), "6"]) for i in range(6)],
        clauses=["NoStaleSurface", "NoStaleFilling", "NoStaleDos", "NoStaleMass", "SettingsAsSet", "RecomputedIsFresh",
                 "NothingChanges"],
    ),
    "C06": dict(
        mc=[("MC_Isolation", "MC_Isolation.cfg", "ok")] +
           [("MC_Isolation", "MC_Isolation_%s.cfg" % x, "violated") for x in ("CopyOnBuild", "CopyOnAssign")],
        gen=[("MC_Isolation", "GEN_C06.cfg", 48, 400, 20, "c06")],
        drivers=[dict(script="drv_c06.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["DefaultsAsDocumented", "SettingsAreOwn", "ResultsFollowSettings", "BuildingChangesNothingElse",
                 "AssigningChangesNothingElse", "CallersWritesStayOutside", "BandWritesStayInBand", "TransportWritesStayInside"],
    ),
    "C07": dict(
        mc=[("MC_Scat", "MC_Scat.cfg", "ok")] +
           [("MC_Scat", "MC_Scat_%s.cfg" % x, "violated") for x in ("ReuseAngles", "FoldInPlace")],
        gen=[("MC_Scat", "GEN_C07.cfg", 120, 900, 16, "c07")],
        drivers=[dict(script="drv_c07.py", args=[str(i), "6"]) for i in range(6)],
        clauses=["RateIsSumOfModels", "InputsUntouched", "OneLifetimePerPoint", "ExtremesOverSurface"],
    ),
    "C08": dict(
        mc=[("MC_Transport", "MC_Transport.cfg", "ok")] +
           [("MC_Transport", "MC_Transport_%s.cfg" % x, "violated") for x in ("FieldFollowsAngles", "RunResetsGrid", "CountRefreshesGrid")],
        gen=[("MC_Transport", "GEN_C08.cfg", 300, 2500, 16, "c08")],
        drivers=[dict(script="drv_c08.py", args=[str(i), "6"]) for i in range(6)],
        clauses=["FieldFollowsSettings", "GridFollowsCount", "FieldNotAssignable", "StartsOnSurface", "OneOrbitPerPoint",
                 "VelocityAlongOrbit", "TimeGrid", "NothingMoves", "LorentzForce", "EnergyConserved", "AlongFieldConserved"],
    ),
    "C09": dict(
        mc=[("MC_Transport", "MC_Transport.cfg", "ok")],
        drivers=[dict(script="drv_c09.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["ChambersRule", "ChambersFormula", "SymmetricWithoutField", "PositiveWithoutField", "DrudeTensor"],
    ),
    "C10": dict(
        mc=[("MC_Transport", "MC_Transport.cfg", "ok")] +
           [("MC_Transport", "MC_Transport_%s.cfg" % x, "violated") for x in ("WindowFollowsT", "WindowFollowsCount", "RunEndsAtFermi")],
        gen=[("MC_Transport", "GEN_C10.cfg", 104, 1200, 14, "c10")],
        drivers=[dict(script="drv_c10.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["WindowFollowsSettings", "LeftAtFermiLevel", "NothingThermalAtZero", "SigmaAtZero", "ThermalSigma",
                 "ThermalAlpha", "ThermalBeta"],
    ),
    "C11": dict(
        mc=[("MC_Transport", "MC_Transport.cfg", "ok")] +
           [("MC_Transport", "MC_Transport_%s.cfg" % x, "violated") for x in ("FieldFollowsAngles", "WindowFollowsT", "RunResetsGrid", "RunEndsAtFermi")],
        gen=[("MC_Transport", "GEN_C11.cfg", 160, 1500, 18, "c11")],
        drivers=[dict(script="drv_c11.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["RunIsFresh", "FiniteTensors", "LookingChangesNothing"],
    ),
    "C12": dict(
        mc=[("MC_Symmetry", "MC_Symmetry.cfg", "ok"), ("MC_Symmetry", "MC_Symmetry_WrongLaw.cfg", "violated")],
        gen=[("MC_Symmetry", "GEN_C12.cfg", 240, 2400, 8, "c12")],
        drivers=[dict(script="drv_c12.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["Reverse", "Quarter", "RatesField", "EnergyRates", "LatticeField", "Energy", "Rates", "Zones"],
    ),
    "C13": dict(
        mc=[("MC_Admr", "MC_Admr.cfg", "ok")] +
           [("MC_Admr", "MC_Admr_%s.cfg" % x, "violated") for x in ("PhiOfFirst", "KeepSum", "TotalsPileUp")],
        gen=[("MC_Admr", "GEN_C13.cfg", 88, 1000, 10, "c13")],
        drivers=[dict(script="drv_c13.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["PolarGrid", "EntriesAreTotals", "NormalisedRows", "TotalFilling", "TotalHoleDoping", "TotalsStay"],
    ),
    "C14": dict(
        mc=[("MC_Admr", "MC_Admr.cfg", "ok")],
        gen=[("MC_Admr", "GEN_C14.cfg", 120, 900, 9, "c14")],
        drivers=[dict(script="drv_c14.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["FileWhereAsked", "OneRowPerAngle", "OneLabelPerColumn", "AzimuthLabels", "CellsAreScan", "ExportChangesNothing",
                 "FigureWhereAsked", "NameEncodesScan"],
    ),
    "C15": dict(
        mc=[("MC_Fit", "MC_Fit.cfg", "ok")] +
           [("MC_Fit", "MC_Fit_%s.cfg" % x, "violated") for x in ("ZeroIgnored", "FirstTempOnly", "SharedTables", "GeneralStays")],
        gen=[("MC_Fit", "GEN_C15.cfg", 96, 800, 16, "c15")],
        drivers=[dict(script="drv_c15.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["BoundsInOrder", "NothingMovedYet", "Routed", "ReferenceIsRouted", "SimulationOfCandidate", "SumOfSquares"],
    ),
    "C16": dict(
        mc=[("MC_Align", "MC_Align.cfg", "ok")] +
           [("MC_Align", "MC_Align_%s.cfg" % x, "violated") for x in ("NoSort", "NormOnGrid", "ScaleBoth", "FirstRow")],
        drivers=[dict(script="drv_c16.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["AzimuthsWithData", "GridSpans", "GridWithin", "GridCut", "NormalisedData", "AbsoluteData", "RawCurve"],
    ),
    "C17": dict(
        mc=[("MC_Member", "MC_Member.cfg", "ok")] +
           [("MC_Member", "MC_Member_%s.cfg" % x, "violated") for x in ("ScatteringIgnored", "BandSettingsStay", "MuNotRecorded", "LoadKeepsBand")],
        gen=[("MC_Member", "GEN_C17.cfg", 96, 800, 24, "c17")],
        drivers=[dict(script="drv_c17.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["NothingMovedYet", "RecordHasCandidate", "ReferenceIsRecord", "ImposedDoping", "ResidualOfCandidate", "FileWhereAsked",
                 "FileHoldsRecord", "LoadedSimulation", "BestOfEvaluated", "WithinBounds"],
    ),
    "C18": dict(
        mc=[("MC_Fit", "MC_Fit.cfg", "ok")] +
           [("MC_Fit", "MC_Fit_%s.cfg" % x, "violated") for x in ("ZeroIgnored", "SharedTables", "GeneralStays", "ExportAny")],
        gen=[("MC_Fit", "GEN_C18.cfg", 48, 600, 16, "c18")],
        drivers=[dict(script="drv_c18.py", args=[str(i), "8"]) for i in range(8)] +
                [dict(script="drv_c18.py", args=["jit"], env={"NUMBA_DISABLE_JIT": "0"})],
        clauses=["ReferenceIsCandidate", "ValueOfCandidate", "OneValuePerCandidate", "SameInAnyWorker", "CallerUntouched", "SameAsSerial",
                 "SameEvaluations", "WithinBounds", "CarriesBest", "BestIsBest", "CurvesOfBest"],
    ),
    "C19": dict(
        mc=[("MC_Diag", "MC_Diag.cfg", "ok")] +
           [("MC_Diag", "MC_Diag_%s.cfg" % x, "violated") for x in ("RatesOfNow", "PlanesOfSurface", "AskingOnlyLooks")],
        gen=[("MC_Diag", "GEN_C19.cfg", 240, 2400, 17, "c19")],
        drivers=[dict(script="drv_c19.py", args=[str(i), "8"]) for i in range(8)],
        clauses=["DosIsSurfaceSum", "MassIsContourSum", "OmegacTau", "AskingChangesNothing", "DosCountsStates", "MassIsAreaDerivative"],
    ),
}
