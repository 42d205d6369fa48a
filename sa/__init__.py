"""Static analysis of SciDataTool: program model, analyses and reporting."""
